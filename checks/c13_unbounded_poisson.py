"""C13: the unbounded Poisson solve is the free-space Green's function convolution of the right-hand side."""
import os
import random

COUNTS = {"quick": 70, "thorough": 400}
RULE = ("unbounded Poisson solves per case: 2D/3D x grid shape (also non-square, odd) x domain length x precision x threads "
        "x 1-4 right-hand sides solved in sequence by one or by two interleaved solvers (scalar and 3D vector entry "
        "points, separate or shared output, strided views). Oracle: direct summation over all pairs of cells in float64. "
        "Non-trivial: a non-zero right-hand side on at least 2 cells or a sequence of solves.")
ASSUMPTIONS = ["self-interaction value of the regularised kernel is the documented one"]


def pool(ctx, shard, tier):
    rng = random.Random("%s/%d" % (ctx, shard))
    out = []
    n2, n3 = {"quick": (3, 2), "thorough": (14, 8)}[tier]
    for i in range(n2 + n3):
        dim = 2 if i < n2 else 3
        hi = (14 if dim == 2 else 7) if tier == "quick" else (24 if dim == 2 else 9)
        shape = [rng.randint(2, hi) for _ in range(dim)]
        if i == 0 and shard % 4 == 0:
            shape = [shape[0]] * dim
        out.append({"dim": dim, "shape": shape, "L": rng.choice([1.0, 1.0, 0.37, 2.0, 5.0]),
                    "rt": rng.choice(["f32", "f64"]), "nt": rng.choice([1, 1, 2, 3, 4, 8])})
    # the same grid with another domain length, precision or thread count
    for c in (out[0], out[n2]):
        twin = dict(c, L=rng.choice([1e-3, 0.5, 3.0, 40.0]))
        if rng.random() < 0.3:
            twin["rt"] = "f32" if c["rt"] == "f64" else "f64"
        if rng.random() < 0.3:
            twin["nt"] = c["nt"] % 4 + 1
        out.append(twin)
    # larger and elongated grids
    big = [[32, 20], [1, 9], [48, 16], [17, 33], [5, 64], [70, 3], [40, 40], [2, 101]][shard % 8]
    big3 = [[12, 10, 8], [3, 16, 5], [2, 4, 33], [16, 4, 9], [1, 6, 5], [20, 3, 7], [9, 9, 9], [6, 1, 11]][shard % 8]
    for shape in (big, big3):
        out.append({"dim": len(shape), "shape": shape, "L": rng.choice([1.0, 0.37, 2.0]),
                    "rt": rng.choice(["f32", "f64", "f64"]), "nt": rng.choice([1, 2, 4])})
    return out


def strategy(st, shard, shards, tier):
    from vf import oprun

    p = pool("C13/" + os.environ.get("VERIF_SEED", "1"), shard, tier)
    s = oprun.arr_specs(st)

    @st.composite
    def case(draw):
        a = draw(st.sampled_from(p))
        b = draw(st.sampled_from(p))
        steps = draw(st.lists(st.fixed_dictionaries({
            "which": st.sampled_from([0, 0, 1]), "arr": s, "vec": st.booleans(), "nan": st.booleans(),
            "out": st.sampled_from(["new", "new", "same", "pad"]), "lay": st.sampled_from(["C", "C", "pad", "skip", "F"])}),
            min_size=1, max_size=4))
        return {"a": a, "b": b, "steps": steps}

    return case()


_solvers = {}
_green = {}


def solver(cfg):
    import json

    from vf import util
    import sopht.numeric.eulerian_grid_ops as spne

    key = json.dumps(cfg, sort_keys=True)
    if key not in _solvers:
        kw = dict(x_range=cfg["L"], num_threads=cfg["nt"], real_t=util.rt(cfg["rt"]))
        for n, v in zip(("grid_size_x", "grid_size_y", "grid_size_z"), cfg["shape"][::-1]):
            kw[n] = v
        cls = spne.UnboundedPoissonSolverPYFFTW2D if cfg["dim"] == 2 else spne.UnboundedPoissonSolverPYFFTW3D
        with util.sut("constructing %s(%s)" % (cls.__name__, kw)):
            _solvers[key] = cls(**kw)
    return _solvers[key]


def green(cfg):
    """Dense matrix of the regularised free-space Green's function, times cell volume; and a tolerance matrix."""
    import json

    import numpy as np

    key = json.dumps([cfg["dim"], cfg["shape"], cfg["L"]])
    if key not in _green:
        if len(_green) > 30:
            _green.clear()
        shape, dim = cfg["shape"], cfg["dim"]
        dx = cfg["L"] / shape[-1]
        idx = np.indices(shape).reshape(dim, -1).T.astype(float)
        r = np.sqrt(((idx[:, None, :] - idx[None, :, :]) ** 2).sum(-1)) * dx
        off = r > 0
        rs = np.where(off, r, 1.0)
        size = 2 * dx * max(shape)
        if dim == 2:
            g = np.where(off, -np.log(rs) / (2 * np.pi), -(2 * np.log(dx / np.sqrt(np.pi)) - 1) / (4 * np.pi))
            slack = np.where(off, size / rs + np.abs(g), np.abs(g) + 1)
        else:
            g = np.where(off, 1 / (4 * np.pi * rs), 1 / (4 * np.pi * dx))
            slack = np.abs(g) * np.where(off, 2 + size / rs, 2)
        _green[key] = (g * dx ** dim, slack * dx ** dim)
    return _green[key]


def run(case):
    import numpy as np
    from vf import util

    cfgs = [case["a"], case["b"]]
    outs = {}
    classes = set()
    nontrivial = len(case["steps"]) > 1
    for i, s in enumerate(case["steps"]):
        cfg = cfgs[s["which"]]
        real_t = util.rt(cfg["rt"])
        shape = tuple(cfg["shape"])
        sv = solver(cfg)
        vec = s["vec"] and cfg["dim"] == 3
        fs = ((3,) + shape) if vec else shape
        f = util.expand(s["arr"], fs, np.float64)
        if vec:
            f = f * np.array([1.0, -0.5, 2.0]).reshape(3, 1, 1, 1)
        f = util.laid_out(f.astype(real_t), s["lay"])
        okey = (s["which"], vec)
        if s["out"] == "same" and okey in outs:
            out = outs[okey]
        else:
            out = util.laid_out(np.full(fs, np.nan if s.get("nan") else 9.0, real_t), "pad" if s["out"] == "pad" else "C")
            outs[okey] = out
        ctx = "unbounded Poisson %dd %s[%s,nt=%d] solve %d" % (cfg["dim"], shape, cfg["rt"], cfg["nt"], i)
        keep = np.array(f, copy=True)
        with util.sut(ctx, f, out):
            if vec:
                sv.vector_field_solve(solution_vector_field=out, rhs_vector_field=f)
            else:
                sv.solve(solution_field=out, rhs_field=f)
        util.same(f, keep, ctx + ": right-hand side modified")
        g, slack = green(cfg)
        for c in range(3) if vec else [None]:
            q = util.d(f[c] if vec else f).reshape(-1)
            want = g @ q
            e = util.eps(cfg["rt"])
            n = q.size
            tol = e * (8 * (slack @ np.abs(q)) + 12 * np.log2(4 * n + 2) * np.sqrt((g ** 2).sum(1).max() * 2 ** cfg["dim"] * (q ** 2).sum()))
            util.close((out[c] if vec else out).reshape(-1), want, tol, ctx)
            if (q != 0).sum() > 1:
                nontrivial = True
        classes.update(["%dd" % cfg["dim"], cfg["rt"], "threads %d" % cfg["nt"], "vector" if vec else "scalar",
                        "square" if len(set(shape)) == 1 else "nonsquare", "out:" + s["out"], "layout:" + s["lay"]])
    if len({s["which"] for s in case["steps"]}) > 1:
        classes.add("interleaved solvers")
    return {"nontrivial": nontrivial, "classes": sorted(classes)}
