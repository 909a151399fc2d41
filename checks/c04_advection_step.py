"""C04: an advection time step subtracts exactly dt/dx times the flux divergence."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = ["advstep_2d", "advstep_scalar_3d", "advstep_vector_3d"]
COUNTS = {"quick": 200, "thorough": 2400}
RULE = ("advection time steps per case: dimension x field type x precision x threads x fixed/dynamic size x shape x "
        "field/velocity/buffer contents x dt/dx, 1-3 steps with one kernel; the scratch flux holds arbitrary data. "
        "Zero velocity and a second step on evolved data are checked too. Non-trivial: the field changed.")
ASSUMPTIONS = ["see C03 on exact velocity ties"]


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C04/" + seed, shard, shards,
                           {"quick": {"copies": 4, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        fname = o.fields[0][0]
        # a second step from the evolved state, with the used scratch array
        r = o.ref(oprun.dbl(o, args, pars))[fname]
        with util.sut(ctx):
            k(**args, **pars)
        oprun.compare(o, case, fname, args[fname], r[0], r[1], r[2], ctx + " second step")
        # a fluid at rest carries nothing
        still = dict(args)
        still["velocity"] = np.zeros_like(args["velocity"])
        keep = np.array(args[fname], copy=True)
        with util.sut(ctx):
            k(**still, **pars)
        util.same(args[fname], keep, ctx + ": field changed without velocity")
        return ["at rest"]

    return oprun.run_op(OPS[case["op"]], case, law)
