"""C07: vorticity updates add exactly the scaled curl of the (change in) velocity, inside only."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = ["vforce_2d", "vpen_2d", "vforce_3d", "vpen_3d"]
COUNTS = {"quick": 240, "thorough": 2600}
RULE = ("vorticity update per case: forcing or penalised-velocity form x dimension x precision x threads x fixed/"
        "dynamic size x shape x contents x layout x prefactor, 1-3 calls. Each penalised-form case is also compared "
        "with the forcing form applied to the velocity difference. Non-trivial: the vorticity changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C07/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        if not o.key.startswith("vpen"):
            return []
        real_t = util.rt(case["rt"])
        kf = util.kernel(util.SPNE, "gen_update_vorticity_from_velocity_forcing_pyst_kernel_%dd" % o.dim, real_t=real_t)
        w = np.array(before["vorticity_field"], order="C")
        dv = np.array(before["penalised_velocity_field"] - before["velocity_field"], order="C")
        with util.sut("forcing form"):
            kf(vorticity_field=w, velocity_forcing_field=dv, **pars)
        m = (np.abs(util.d(before["penalised_velocity_field"])).max() + np.abs(util.d(before["velocity_field"])).max())
        tol = 64 * util.eps(case["rt"]) * (np.abs(util.d(w)).max() + 8 * abs(float(pars["prefactor"])) * m) + 1e-30
        util.close(args["vorticity_field"], w, tol, ctx + ": differs from forcing form of the difference")
        return ["two forms agree"]

    return oprun.run_op(OPS[case["op"]], case, law)
