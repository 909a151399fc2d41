"""C02: the boundary-zone setter writes the value in the zone and nothing outside it."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = [k for k in OPS if k.startswith("bset_")]
COUNTS = {"quick": 400, "thorough": 4000}
RULE = ("boundary-zone set per case: dimension x field type x width 1..5 x precision x threads x grid shape (zones may "
        "meet or cover the grid) x contents x memory layout x values, 1-3 calls. Non-trivial: some cell changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C02/" + seed, shard, shards,
                           {"quick": {"copies": 4, "configs": 1}, "thorough": {"copies": 8, "configs": 3}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    o = OPS[case["op"]]
    w = o.cfg["width"]

    def law(o, case, k, args, pars, before, ctx):
        lab = ["interior left" if min(case["shape"]) > 2 * w else "zone covers grid"]
        return lab

    return oprun.run_op(o, case, law)
