"""C14: the fast-diagonalisation solver inverts the Neumann Laplacian, for every compatible right-hand side."""
import os
import random

COUNTS = {"quick": 240, "thorough": 800}
RULE = ("Neumann Poisson solves per case: 2D/3D x grid shape (2..20 per axis in 2D, 2..10 in 3D, non-square) x spacing x "
        "precision x 1-4 right-hand sides in sequence on one or two interleaved solvers, scalar and vector entry points. "
        "Oracle: apply the 3-point Neumann Laplacian to the solution, it gives back the mean-free part of the right-hand "
        "side; the solution has zero mean. Non-trivial: the mean-free right-hand side is not zero.")
ASSUMPTIONS = ["each axis has at least 2 cells", "the 2D solver is given C-contiguous outputs (numpy refuses others)"]


def strategy(st, shard, shards, tier):
    from vf import oprun

    s = oprun.arr_specs(st)

    @st.composite
    def config(draw):
        dim = draw(st.sampled_from([2, 3]))
        hi = {(2, "quick"): 20, (3, "quick"): 9, (2, "thorough"): 48, (3, "thorough"): 14}[(dim, tier)]
        shape = draw(st.lists(st.integers(2, hi), min_size=dim, max_size=dim))
        if draw(st.integers(0, 9)) == 0:  # one long axis
            shape[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([33, 64, 101] if dim == 2 else [20, 33]))
        return {"dim": dim, "shape": shape,
                "dx": draw(st.sampled_from([1.0, 0.1, 0.03125, 2.5, 40.0, 1e3, 1e-3, 1e-5, 3e4])), "rt": draw(st.sampled_from(["f64", "f64", "f32"]))}

    return st.fixed_dictionaries({
        "a": config(), "b": config(),
        "steps": st.lists(st.fixed_dictionaries({"which": st.sampled_from([0, 0, 1]), "arr": s, "vec": st.booleans(), "nan": st.booleans(),
                                                 "out_lay": st.sampled_from(["C", "C", "pad", "F", "skip"]),
                                                 "lay": st.sampled_from(["C", "C", "pad", "F"]),
                                                 "inplace": st.sampled_from([False, False, False, True])}),
                          min_size=1, max_size=4)})


def neumann(q, dx):
    """-laplacian with zero normal flux through every face."""
    import numpy as np

    out = np.zeros_like(q)
    for ax in range(q.ndim):
        g = np.diff(q, axis=ax)
        pad = [(0, 0)] * q.ndim
        pad[ax] = (1, 1)
        g = np.pad(g, pad)
        out -= np.diff(g, axis=ax)
    return out / dx ** 2


def run(case):
    import numpy as np
    from vf import util
    import sopht.numeric.eulerian_grid_ops as spne

    solvers = {}
    nontrivial = False
    classes = set()
    for i, s in enumerate(case["steps"]):
        cfg = case["ab"[s["which"]]]
        real_t = util.rt(cfg["rt"])
        shape = tuple(cfg["shape"])
        dim = cfg["dim"]
        if s["which"] not in solvers:
            kw = dict(dx=cfg["dx"], real_t=real_t)
            for n, v in zip(("grid_size_x", "grid_size_y", "grid_size_z"), shape[::-1]):
                kw[n] = v
            cls = spne.FastDiagPoissonSolver2D if dim == 2 else spne.FastDiagPoissonSolver3D
            with util.sut("constructing %s(%s)" % (cls.__name__, kw)):
                solvers[s["which"]] = cls(**kw)
        sv = solvers[s["which"]]
        vec = s["vec"] and dim == 3
        fs = ((3,) + shape) if vec else shape
        f = util.expand(s["arr"], fs, np.float64)
        if vec:
            f = f * np.array([1.0, -0.5, 2.0]).reshape(3, 1, 1, 1)
        f = util.laid_out(f.astype(real_t), s["lay"])
        keep = np.array(f, copy=True)
        inplace = s["inplace"] and s["lay"] == "C"
        out = f if inplace else util.laid_out(np.full(fs, np.nan if s.get("nan") else 9.0, real_t), s.get("out_lay", "C") if dim == 3 else "C")
        ctx = "Neumann Poisson %dd %s[dx=%s,%s] solve %d" % (dim, shape, cfg["dx"], cfg["rt"], i)
        with util.sut(ctx, f, *([] if inplace else [out])):
            if vec:
                sv.vector_field_solve(solution_vector_field=out, rhs_vector_field=f)
            else:
                sv.solve(solution_field=out, rhs_field=f)
        if not inplace:
            util.same(f, keep, ctx + ": right-hand side modified")
        for c in range(3) if vec else [None]:
            q = util.d(keep[c] if vec else keep)
            u = util.d(out[c] if vec else out)
            amp = float(np.abs(q).max())
            n = max(shape)
            e = util.eps(cfg["rt"])
            # the condition number of the mean-free problem is ~ n^2; the mean mode carries eps * n^2 of leakage
            tol = 60 * e * n ** 2 * dim * amp * np.sqrt(q.size) / np.sqrt(n)
            util.require(bool(np.isfinite(u).all()), ctx + ": solution is not finite")
            util.close(neumann(u, cfg["dx"]), q - q.mean(), tol, ctx + ": -laplacian(solution) against rhs - mean(rhs)")
            util.close(np.array([u.mean()]), [0.0], tol * cfg["dx"] ** 2 * n, ctx + ": mean of the solution")
            if np.abs(q - q.mean()).max() > 1e-3 * amp:
                nontrivial = True
        classes.update(["%dd" % dim, cfg["rt"], "vector" if vec else "scalar",
                        "square" if len(set(shape)) == 1 else "nonsquare", "layout:" + s["lay"]])
        if inplace:
            classes.add("in place")
    if len({s["which"] for s in case["steps"]}) > 1:
        classes.add("interleaved solvers")
    return {"nontrivial": nontrivial, "classes": sorted(classes)}
