"""C06: curls and divergences are centred differences, and div(curl) and curl(grad) vanish discretely."""
import os

from vf.ops import OPS
from vf import oprun

KEYS = [k for k in OPS if k.split("_")[0] in ("incurl", "outcurl", "curl", "div")]
COUNTS = {"quick": 220, "thorough": 2600}
RULE = ("curl or divergence evaluation per case: operation x ghost-zone option x precision x threads x fixed/dynamic "
        "size x shape x contents x layout x prefactor, 1-3 calls; 3D cases also compose the kernels: divergence of a "
        "curl, curl of a centred gradient, 2D inplane curl of a gradient. Non-trivial: the output changed.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C06/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 1}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    return oprun.op_case(st, OPS, pool, tier)


def run(case):
    import numpy as np
    from vf import util

    def law(o, case, k, args, pars, before, ctx):
        shape = tuple(case["shape"])
        eps = util.eps(case["rt"])
        real_t = util.rt(case["rt"])
        if min(shape) < 5:
            return []
        inn = tuple(slice(2, n - 2) for n in shape)
        if o.key.startswith("curl_"):
            dv = util.kernel(util.SPNE, "gen_divergence_pyst_kernel_3d", real_t=real_t)
            out = np.full(shape, 9.0, dtype=real_t)
            with util.sut("divergence of curl"):
                dv(divergence=out, field=np.ascontiguousarray(args["curl"]), inv_dx=real_t(1))
            scale = 24 * abs(float(pars["prefactor"])) * np.abs(util.d(args["field"])).max()
            util.close(out[inn], np.zeros(shape)[inn], 16 * eps * scale + 1e-30, ctx + ": div(curl)")
            return ["div curl"]
        if o.key.startswith("outcurl"):
            # streamfunction velocity has no discrete divergence
            c = util.d(args["curl"])
            dv = (c[0][2:-2, 3:-1] - c[0][2:-2, 1:-3]) + (c[1][3:-1, 2:-2] - c[1][1:-3, 2:-2])
            scale = 8 * abs(float(pars["prefactor"])) * np.abs(util.d(args["field"])).max()
            util.close(dv, np.zeros(dv.shape), 16 * eps * scale + 1e-30, ctx + ": divergence of streamfunction velocity")
            return ["div curl"]
        if o.key.startswith("incurl"):
            # curl of a centred gradient
            phi = util.d(args["field"][0])
            g = np.zeros((2,) + shape, dtype=real_t)
            g[0][:, 1:-1] = phi[:, 2:] - phi[:, :-2]
            g[1][1:-1, :] = phi[2:, :] - phi[:-2, :]
            out = np.zeros(shape, dtype=real_t)
            with util.sut(ctx):
                if case["fx"]:
                    k(curl=out, field=g, **pars)
                else:
                    k(curl=out, field=g, **pars)
            scale = 8 * abs(float(pars["prefactor"])) * np.abs(phi).max()
            util.close(util.d(out)[inn], np.zeros(shape)[inn], 16 * eps * scale + 1e-30, ctx + ": curl(grad)")
            return ["curl grad"]
        return []

    return oprun.run_op(OPS[case["op"]], case, law)
