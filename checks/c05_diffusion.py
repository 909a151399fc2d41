"""C05: diffusion fluxes and time steps apply the centred Laplacian inside, and nothing on the faces."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = [k for k in OPS if k.startswith("diff")]
COUNTS = {"quick": 240, "thorough": 2600}
RULE = ("diffusion flux or time step per case: operation x dimension x field type x ghost-zone option x precision x "
        "threads x fixed/dynamic size x shape x contents x layout x prefactor, 1-3 calls. Conservation of compactly "
        "supported fields and invariance of constants are checked on each. Non-trivial: an output changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C05/" + seed, shard, shards,
                           {"quick": {"copies": 4, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        shape = tuple(case["shape"])
        eps = util.eps(case["rt"])
        if "step" in o.key and min(shape) >= 5:
            fname = o.fields[0][0]
            sl = (Ellipsis,) + tuple(slice(2, n - 2) for n in shape)
            f = np.zeros_like(args[fname])
            f[sl] = before[fname][sl]
            was = util.d(f).copy()
            a2 = dict(args)
            a2[fname] = f
            with util.sut(ctx):
                k(**a2, **pars)
            scale = np.abs(was).sum() * (1 + 4 * o.dim * abs(float(pars["nu_dt_by_dx2"])))
            util.require(abs(util.d(f).sum() - was.sum()) <= 64 * eps * scale,
                         "%s: total of a compactly supported field changed from %.17g to %.17g"
                         % (ctx, was.sum(), util.d(f).sum()))
            return ["conservation"]
        return []

    return oprun.run_op(OPS[case["op"]], case, law)
