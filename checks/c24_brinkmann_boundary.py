"""C24: Lagrangian Brinkmann forcing drives the flow at each node implicitly towards the body velocity."""

COUNTS = {"quick": 200, "thorough": 4000}
RULE = ("sequences of 1-5 interactions with one or two forcing objects on one of two grid fluxes (rewritten in between or not), 2D/3D, both precisions, with and without reset of the grid flux, "
        "coefficients 0..1e6, time steps 1e-4..1, moving nodes. Oracle: closed form at the nodes, delta function summed over the "
        "whole grid for the flux, its total, and the force. Non-trivial: non-zero flux.")
ASSUMPTIONS = ["as C21"]


def strategy(st, shard, shards, tier):
    from vf import ibm, oprun

    s = oprun.arr_specs(st)
    ev = st.fixed_dictionaries({"u": s, "v": s, "move": st.integers(0, 3), "dt": st.sampled_from([1e-4, 0.01, 0.3, 1.0]),
                                "grid": st.sampled_from([0, 0, 1]), "nan": st.sampled_from([False, False, True]), "refill": st.one_of(st.none(), st.none(), s),
                                "body": st.integers(0, 1)})
    return st.fixed_dictionaries({"c": ibm.setup(st), "lam": st.sampled_from([0.0, 1.0, 50.0, 1e4, 1e6]), "reset": st.booleans(),
                                  "nt": st.sampled_from([False, 2]), "base": s, "bodies": st.integers(1, 2),
                                  "lam2": st.sampled_from([0.0, 1.0, 50.0, 1e4, 1e6]),
                                  "steps": st.lists(ev, min_size=1, max_size=5)})


def run(case):
    import numpy as np
    from vf import ibm, util
    import sopht.numeric.immersed_boundary_ops as ib

    c = dict(case["c"], kern="cosine")
    dim, n = c["dim"], c["n"]
    real_t = util.rt(c["rt"])
    eps = util.eps(c["rt"])
    dx = float(real_t(c["dx"]))
    shape = tuple(c["shape"])
    lams = [case["lam"], case.get("lam2", case["lam"])][:case.get("bodies", 1)]
    bodies = []
    for lam in lams:
        with util.sut("BrinkmannBoundaryForcing"):
            bodies.append(ib.BrinkmannBoundaryForcing(
                brinkmann_coeff=lam, grid_dim=dim, dx=real_t(c["dx"]), eul_grid_coord_shift=real_t(c["shift"] * dx),
                num_lag_nodes=n, interp_kernel_width=2, real_t=real_t, enable_eul_grid_flux_reset=case["reset"],
                num_threads=case["nt"]))
    fluxes = [util.expand(case["base"], (dim,) + shape, np.float64).astype(real_t) for _ in range(2)]
    axes = tuple(range(1, dim + 1))
    sc = (1.0 + 0.5 * np.arange(dim)).reshape((-1,) + (1,) * dim)
    nontrivial = False
    for i, s in enumerate(case["steps"]):
        j = s.get("body", 0) % len(lams)
        body, lam, ctx = bodies[j], lams[j], "interaction %d (body %d)" % (i, j)
        flux, other = fluxes[s.get("grid", 0)], fluxes[1 - s.get("grid", 0)].copy()
        if case["reset"] and s.get("nan"):
            flux[...] = np.nan
        elif s.get("refill"):
            flux[...] = util.expand(s["refill"], flux.shape, np.float64).astype(real_t)
        dt = s["dt"]
        x = ibm.nodes(c, s["move"])
        full, err = ibm.delta(c, x)
        u = (util.expand(s["u"], (dim,) + shape, np.float64) * sc).astype(real_t)
        v = util.expand(s["v"], (dim, n), np.float64).astype(real_t)
        before = flux.copy()
        keep = util.Unchanged(flow_velocity=u, positions=x, body_velocity=v)
        with util.sut(ctx):
            body.compute_interaction_forcing(
                eul_grid_penalisation_flux=flux, eul_grid_velocity_field=u, lag_grid_position_field=x,
                lag_grid_velocity_field=v, dt=dt)
        keep.check(ctx)
        util.same(fluxes[1 - s.get("grid", 0)], other, ctx + ": a grid flux that was not passed")
        U = np.stack([(full * util.d(u[k])[None]).sum(axes) * dx ** dim for k in range(dim)])
        uerr = (err * 4 ** dim * 2 + eps * 4 ** dim / dx ** dim) * dx ** dim * np.abs(util.d(u)).max()
        V = util.d(v)
        P = (U + lam * dt * V) / (1 + lam * dt)
        G = P - U
        perr = uerr + 8 * eps * (np.abs(U) + np.abs(V))
        util.close(body.lag_grid_penalised_velocity_field, P, perr, ctx + ": penalised velocity at the nodes")
        util.close(body.lag_grid_penalisation_flux, G, 2 * perr, ctx + ": flux at the nodes")
        util.close(body.lag_grid_penalisation_forcing, dx ** dim * G / dt, dx ** dim * (2 * perr + 8 * eps * np.abs(G)) / dt,
                   ctx + ": force at the nodes")
        for k in range(dim):
            start = np.zeros(shape) if case["reset"] else util.d(before[k])
            want = start + (full * G[k].reshape((n,) + (1,) * dim)).sum(0) * dx ** dim
            ge = (2 * perr[k]).reshape((n,) + (1,) * dim)
            tol = ((full * ge).sum(0) + err * (np.abs(G[k]) + 2 * perr[k]).sum()) * dx ** dim + 6 * eps * (n + 1) * (np.abs(start) + np.abs(G[k]).sum())
            util.close(flux[k], want, tol + 1e-300, "%s: grid flux, component %d" % (ctx, k))
            util.close(np.array([(util.d(flux[k]) - start).sum()]), [G[k].sum()], tol.sum() + 1e-300,
                       "%s: total flux, component %d" % (ctx, k))
        if np.abs(G).max() > 0:
            nontrivial = True
    return {"nontrivial": nontrivial, "classes": ibm.classes(c) + ["reset" if case["reset"] else "accumulate", "coefficient %g" % case["lam"], "%d bodies" % len(lams)]}
