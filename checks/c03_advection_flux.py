"""C03: the advective flux is the divergence of upwinded third-order face fluxes, and telescopes."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = ["advflux_2d", "advflux_3d"]
COUNTS = {"quick": 260, "thorough": 3000}
RULE = ("advective-flux evaluation per case: dimension x precision x threads x fixed/dynamic size x shape x flux/field/"
        "velocity contents x memory layout, 1-3 calls. Each case also checks accumulation (a second call adds the same "
        "amount) and conservation (a field supported away from the faces leaves a zero net flux). Non-trivial: the "
        "flux array changed.")
ASSUMPTIONS = ["where the two velocities at a face cancel exactly either one-sided value is accepted, if both "
               "neighbouring cells use the same one"]


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C03/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        labels = []
        # conservation: support at least four cells away from every face
        shape = args["field"].shape
        eps = util.eps(case["rt"])
        if min(shape) >= 9:
            f = np.zeros_like(args["field"])
            sl = tuple(slice(4, n - 4) for n in shape)
            f[sl] = args["field"][sl]
            flux = np.zeros_like(f)
            with util.sut(ctx):
                k(advection_flux=flux, field=f, velocity=args["velocity"], **pars)
            mag = np.abs(util.d(f))[None] * np.abs(util.d(args["velocity"]))
            scale = abs(float(pars["inv_dx"])) * mag.sum() * 4
            tot = util.d(flux).sum()
            util.require(abs(tot) <= 64 * eps * scale,
                         "%s: net flux of a compactly supported field is %g (bound %g)" % (ctx, tot, 64 * eps * scale))
            labels.append("conservation")
        return labels

    return oprun.run_op(OPS[case["op"]], case, law)
