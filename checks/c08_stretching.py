"""C08: vortex stretching flux, Euler and SSP-RK3 steps."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = ["stretch_3d", "stretch_euler_3d", "stretch_rk3_3d"]
COUNTS = {"quick": 200, "thorough": 2200}
RULE = ("stretching flux or time step per case: scheme x precision x threads x fixed/dynamic size x shape x vorticity/"
        "velocity contents x scratch contents x dt/(2 dx), 1-3 steps with one kernel (its mid-step buffer keeps the "
        "previous step's data). Non-trivial: an output changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C08/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    base = oprun.op_case(st, OPS, pool, tier)

    @st.composite
    def case(draw):
        c = draw(base)
        if "dt_by_2_dx" in c["par"]:
            # steps within the range where three stages do not overflow the comparison
            c["par"]["dt_by_2_dx"] = draw(st.sampled_from([0.0, 0.01, 0.05, -0.05, 0.25, 1.0]))
        return c
    return case()


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        if "rk3" not in o.key:
            return []
        # rigid translation does not stretch vorticity
        a2 = dict(args)
        a2["velocity_field"] = np.full_like(args["velocity_field"], 1.5)
        was = np.array(args["vorticity_field"], copy=True)
        with util.sut(ctx):
            k(**a2, **pars)
        util.close(args["vorticity_field"], was, 8 * util.eps(case["rt"]) * np.abs(util.d(was)) + 1e-300,
                   ctx + ": vorticity changed in a uniform flow")
        return ["uniform flow"]

    from vf.ops import r_stretch_rk3

    o = OPS[case["op"]]
    alts = None
    if "rk3" in o.key:
        # known finding: the third stage advances by half the time step
        alts = {"rk3-third-stage-half-step": lambda a: r_stretch_rk3(a, third=0.5)}
    return oprun.run_op(o, case, law, alts)
