"""C11: boundary penalisation ramps the field to zero over the zone and leaves the interior alone."""
import os
import random

COUNTS = {"quick": 140, "thorough": 700}
RULE = ("boundary penalisation per case: dimension x field type x zone width (0, 1, ... up to touching zones) x spacing "
        "x grid origin per axis x shape x precision x threads x fixed/dynamic size x contents, 1-3 applications. Non-trivial: "
        "width > 0 and the field changed.")
ASSUMPTIONS = ["zones of opposite faces do not overlap (2 * width <= extent), grid coordinates are uniform with spacing dx"]


def pool(ctx, shard, tier):
    rng = random.Random("%s/%d" % (ctx, shard))
    out = []
    n2, n3 = {"quick": (8, 5), "thorough": (24, 12)}[tier]
    for i in range(n2 + n3):
        dim = 2 if i < n2 else 3
        w = [1, 2, 3, 4, 6, 0, 5, 9][(i + shard) % 8] if dim == 2 else [1, 2, 3, 0, 4, 5][(i + shard) % 6]
        shape = [rng.randint(max(2 * w, 2), max(2 * w, 2) + rng.choice([0, 1, 5, 9, 30])) for _ in range(dim)]
        out.append({"dim": dim, "width": w, "shape": shape, "rt": rng.choice(["f32", "f64"]),
                    "nt": rng.choice([False, 1, 2, 4, 8]), "fx": rng.random() < 0.5,
                    "dx": rng.choice([0.03125, 0.1, 1.0, 0.37, 1e-3, 25.0]), "x0": [rng.choice([0.0, 0.5, 2.5, -3.0, 0.25, 11.0]) for _ in range(dim)],
                    "ft": rng.choice(["scalar", "vector"]) if dim == 3 else "scalar"})
    return out


def strategy(st, shard, shards, tier):
    from vf import oprun

    p = pool("C11/" + os.environ.get("VERIF_SEED", "1"), shard, tier)
    return st.builds(lambda e, s, n, lay: dict(e, arr=s, reps=n, lay="C" if e["fx"] else lay), st.sampled_from(p),
                     oprun.arr_specs(st), st.sampled_from([1, 1, 2, 3]), st.sampled_from(["C", "C", "pad"]))


_made = {}


def run(case):
    import json

    import numpy as np
    from vf import util

    real_t = util.rt(case["rt"])
    dim, w, shape = case["dim"], case["width"], tuple(case["shape"])
    dx = real_t(case["dx"])
    cfg = {k: case[k] for k in ("dim", "width", "shape", "rt", "nt", "fx", "dx", "x0", "ft")}
    key = json.dumps(cfg, sort_keys=True)
    grids = [(np.arange(n) * float(dx) + x0 * float(dx)).astype(real_t) for n, x0 in zip(shape, case["x0"])]
    if key not in _made:
        mesh = np.meshgrid(*grids, indexing="ij")
        mesh = [np.ascontiguousarray(m) for m in mesh]
        kw = dict(width=w, dx=dx, real_t=real_t, num_threads=case["nt"],
                  fixed_grid_size=shape if case["fx"] else False)
        for name, m in zip(("x", "y", "z"), mesh[::-1]):
            kw[name + "_grid_field"] = m
        if dim == 3:
            kw["field_type"] = case["ft"]
        _made[key] = (util.fresh_kernel(util.SPNE, "gen_penalise_field_boundary_pyst_kernel_%dd" % dim, **kw), mesh)
    k, mesh = _made[key]
    vec = case["ft"] == "vector"
    fs = ((3,) + shape) if vec else shape
    f = util.expand(case["arr"], fs, np.float64)
    if vec:
        f = f * np.array([1.0, -0.5, 2.0]).reshape(3, 1, 1, 1)
    f = util.laid_out(f.astype(real_t), case["lay"])
    ctx = "penalise_field_boundary_%dd[width=%d,%s,nt=%s,fx=%s]" % (dim, w, case["rt"], case["nt"], case["fx"])
    grid_before = [m.copy() for m in mesh]
    changed = False
    for _ in range(case["reps"]):
        before = np.array(f, copy=True)
        e = util.d(f).copy()
        comps = [e[c] for c in range(3)] if vec else [e]
        for q in comps:
            for ax in range(dim - 1, -1, -1):  # x first, then y, then z
                v = np.moveaxis(q, ax, 0)
                n = v.shape[0]
                if w:
                    inner_f, inner_b = v[w - 1].copy(), v[n - w].copy()
                    for j in range(w):
                        s = np.sin(np.pi / 2 * j / w)
                        v[j] = inner_f * s
                        v[n - 1 - j] = inner_b * s
        with util.sut(ctx, f):
            if vec:
                k(vector_field=f)
            else:
                k(field=f)
        coord = max(float(np.abs(util.d(g)).max()) for g in grids) / float(dx)
        # cells in a zone: relative error of up to dim sines whose arguments carry the coordinates' rounding
        tol = util.eps(case["rt"]) * (32 + 16 * coord) * dim * np.abs(util.d(before)).max()
        inside = np.zeros(shape, bool)
        inside[tuple(slice(w, n - w) for n in shape)] = True
        outer = np.zeros(shape, bool)
        if w:
            for ax in range(dim):
                o = np.moveaxis(outer, ax, 0)
                o[0] = True
                o[-1] = True
        got = util.d(f)
        for c in range(3) if vec else [None]:
            g, b, x = (got[c], before[c], e[c]) if vec else (got, before, e)
            util.same(g[inside], util.d(b)[inside], ctx + ": interior changed")
            util.close(g, x, tol, ctx)
            util.close(g[outer], np.zeros(int(outer.sum())), tol, ctx + ": outermost cells not zero")
        if not np.array_equal(before, f):
            changed = True
    for m, b in zip(mesh, grid_before):
        util.same(m, b, ctx + ": grid coordinates modified")
    return {"nontrivial": changed and w > 0,
            "classes": ["%dd" % dim, "width %d" % w, case["ft"], case["rt"], "fixed" if case["fx"] else "dynamic"]}
