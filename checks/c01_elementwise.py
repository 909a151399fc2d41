"""C01: elementwise kernels write exactly the pointwise result, everywhere, and nothing else."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = [k for k in OPS if k.split("_")[0] in ("sum", "saxpby", "set", "copy", "add", "cplx", "cross")]
COUNTS = {"quick": 260, "thorough": 3000}
RULE = ("one elementwise kernel call sequence per case: operation x dimension x field type x precision x "
        "thread count x fixed/dynamic grid size x grid shape (incl. extent 1) x array contents x memory layout x "
        "aliasing of output and input, 1-3 calls with new data. Non-trivial: the call changed its output array.")
ASSUMPTIONS = ["pystencils, g++ and the CPU implement IEEE arithmetic up to -Ofast reassociation"]


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C01/" + seed, shard, shards,
                           {"quick": {"copies": 3, "configs": 2}, "thorough": {"copies": 6, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    return oprun.run_op(OPS[case["op"]], case)
