"""C22: interpolation and spreading are adjoint, conserve totals and reproduce simple fields."""

COUNTS = {"quick": 320, "thorough": 2200}
RULE = ("interpolation to and spreading from 1-130 nodes per case, scalar and vector, 2D/3D, non-square grids, both kernels and "
        "precisions, coincident nodes, fields of every kind (spikes to polynomials), non-zero target of the spreading. Oracle: "
        "the delta function summed over the whole grid, adjointness, total of the spread field, constants and (Peskin) linear "
        "fields reproduced, cells outside every support untouched. Non-trivial: non-zero interpolated or spread values.")
ASSUMPTIONS = ["as C21"]


def strategy(st, shard, shards, tier):
    from vf import ibm, oprun

    s = oprun.arr_specs(st)
    return st.fixed_dictionaries({"c": ibm.setup(st), "vec": st.booleans(), "f": s, "g": s, "base": s, "reps": st.integers(1, 3),
                                  "lay": st.sampled_from(["C", "C", "F", "pad", "skip"]),
                                  "lag_lay": st.sampled_from(["C", "C", "F", "pad", "skip"])})


def run(case):
    import numpy as np
    from vf import ibm, util

    c = case["c"]
    dim, n = c["dim"], c["n"]
    vec = case["vec"]
    real_t = util.rt(c["rt"])
    dx = float(real_t(c["dx"]))
    comm = ibm.communicator(c, dim if vec else 1)
    shape = tuple(c["shape"])
    es = ((dim,) + shape) if vec else shape
    ls = ((dim, n) if vec else (n,))
    scale = (1.0 + 0.5 * np.arange(dim)).reshape((-1,) + (1,) * dim)
    nontrivial = False
    for rep in range(case["reps"]):
        x = ibm.nodes(c, rep)
        near, offs, w = ibm.weights(c, comm, x)
        full, err = ibm.delta(c, x)
        f = util.expand(case["f"], es, np.float64)
        if vec:
            f = f * scale
        f = util.laid_out(f.astype(real_t), case["lay"])
        keep = np.array(f, copy=True)
        wk, nk = w.copy(), near.copy()
        lag = util.laid_out(np.full(ls, np.nan if case["reps"] == 2 else 5.25, real_t), case["lag_lay"])
        with util.sut("interpolation", f, lag):
            comm.eulerian_to_lagrangian_grid_interpolation_kernel(
                lag_grid_field=lag, eul_grid_field=f, interp_weights=w, nearest_eul_grid_index_to_lag_grid=near)
        util.same(f, keep, "interpolation: Eulerian field modified")
        util.same(w, wk, "interpolation: weights modified")
        util.same(near, nk, "interpolation: indices modified")
        axes = tuple(range(1, dim + 1))
        fd = util.d(f)
        for k in range(dim) if vec else [None]:
            q = fd[k] if vec else fd
            want = (full * q[None]).sum(axes) * dx ** dim
            amp = np.abs(q).max()
            tol = (err * 4 ** dim * 2 + util.eps(c["rt"]) * 4 ** dim / dx ** dim) * dx ** dim * amp
            got = lag[k] if vec else lag
            util.close(got, want, tol, "interpolation of component %s" % k)
            spec = case["f"]
            if spec["k"] == "const":
                util.close(got, np.full(n, q.flat[0]), tol, "a constant field interpolates to itself")
            if spec["k"] == "poly" and len(spec["c"]) <= dim + 1 and c["kern"] == "peskin":
                r = (util.d(x) - float(real_t(c["shift"] * dx))) / dx
                if not vec:
                    lin = np.zeros(n) + spec["c"][0] + sum(cc * r[dim - 1 - a] for a, cc in enumerate(spec["c"][1:]))
                    util.close(got, lin, 4 * tol, "a linear field interpolates to its value at the node")
        # spreading onto a field that holds something already
        g = util.expand(case["g"], ls, np.float64).astype(real_t)
        if vec:
            g = (g * (1.0 + 0.5 * np.arange(dim))[:, None]).astype(real_t)
        g = util.laid_out(g, case["lag_lay"])
        base = util.expand(case["base"], es, np.float64).astype(real_t)
        eul = util.laid_out(base, case["lay"])
        gk = g.copy()
        with util.sut("spreading", eul, g):
            comm.lagrangian_to_eulerian_grid_interpolation_kernel(
                eul_grid_field=eul, lag_grid_field=g, interp_weights=w, nearest_eul_grid_index_to_lag_grid=near)
        util.same(g, gk, "spreading: Lagrangian field modified")
        util.same(w, wk, "spreading: weights modified")
        reach = np.zeros(shape, bool)
        for i in range(n):
            reach[tuple(slice(near[d, i] - 1, near[d, i] + 3) for d in range(dim - 1, -1, -1))] = True
        for k in range(dim) if vec else [None]:
            e, b, gg, ff = (eul[k], base[k], g[k], fd[k]) if vec else (eul, base, g, fd)
            gg = util.d(gg)
            want = util.d(b) + (full * gg.reshape((n,) + (1,) * dim)).sum(0)
            amp = np.abs(gg).sum()
            tol = err * amp + util.eps(c["rt"]) * 4 * (n + 1) * (np.abs(util.d(b)) + amp / dx ** dim)
            util.close(e, want, tol, "spreading of component %s" % k)
            util.same(np.asarray(e)[~reach], b[~reach], "spreading touched cells outside every support")
            added = (util.d(e) - util.d(b)).sum() * dx ** dim
            ttol = (np.broadcast_to(tol, shape)[reach].sum()) * dx ** dim + 1e-30
            util.close(np.array([added]), [gg.sum()], ttol, "total of the spread field")
            got_lag = util.d(lag[k] if vec else lag)
            lhs = (got_lag * gg).sum()
            rhs = ((util.d(e) - util.d(b)) * ff).sum() * dx ** dim
            itol = (err * 4 ** dim * 2 + util.eps(c["rt"]) * 4 ** dim / dx ** dim) * dx ** dim * np.abs(ff).max() * amp + ttol * np.abs(ff).max()
            util.close(np.array([lhs]), [rhs], itol, "interpolation and spreading are not adjoint")
            if np.abs(gg).max() > 0 and np.abs(got_lag).max() > 0:
                nontrivial = True
    return {"nontrivial": nontrivial, "classes": ibm.classes(c) + ["vector" if vec else "scalar"]}
