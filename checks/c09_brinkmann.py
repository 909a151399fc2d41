"""C09: Brinkmann penalisation is the implicit relaxation towards the target inside the body."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = [k for k in OPS if k.startswith("brink")]
COUNTS = {"quick": 300, "thorough": 3000}
RULE = ("penalisation per case: operation x dimension x field type x precision x threads x fixed/dynamic size x shape "
        "x characteristic field in [0,1] x target x penalty factor 0..1e6 x layout x in-place or not, 1-3 calls. Bounds "
        "between field and target, and exactness outside the body, are checked on each. Non-trivial: output changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C09/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util
    from vf.ops import bc

    def law(o, case, k, args, pars, before, ctx):
        out = o.fields[0][0]
        fname = "field" if "scalar" in o.key else "vector_field"
        f = util.d(before[fname])
        if "penalty_val" in pars:
            pv = pars["penalty_val"]
            t = bc([float(x) for x in pv], f) if isinstance(pv, list) else np.full(f.shape, float(pv))
        else:
            t = util.d(before["penalty_field" if "scalar" in o.key else "penalty_vector_field"])
        chi = np.broadcast_to(util.d(before["char_field"]), f.shape)
        got = util.d(args[out])
        tol = 16 * util.eps(case["rt"]) * (np.abs(f) + np.abs(t)) + 1e-30
        lo, hi = np.minimum(f, t) - tol, np.maximum(f, t) + tol
        util.require(bool(np.all((got >= lo) & (got <= hi))), ctx + ": result outside the range of field and target")
        util.close(got[chi == 0], f[chi == 0], 4 * util.eps(case["rt"]) * np.abs(f[chi == 0]), ctx + ": field changed outside the body")
        lab = ["outside body"] if (chi == 0).any() else []
        return lab + (["inside body"] if (chi > 0).any() else [])

    return oprun.run_op(OPS[case["op"]], case, law)
