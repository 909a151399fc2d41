"""C12: the Laplacian filter subtracts the n-times applied one-dimensional second differences."""
import os
import random

COUNTS = {"quick": 130, "thorough": 700}
RULE = ("Laplacian filter per case: filter type x order (1..7, and 0) x field type x shape x precision x threads x "
        "fixed/dynamic size x field contents x prior contents of the two scratch buffers, 1-3 applications with one "
        "kernel. Non-trivial: order >= 1 and the field changed.")
ASSUMPTIONS = ["the boundary cells of every intermediate flux count as zero, as the kernel documents"]


def pool(ctx, shard, tier):
    rng = random.Random("%s/%d" % (ctx, shard))
    out = []
    n = {"quick": 8, "thorough": 16}[tier]
    for i in range(n):
        out.append({"ftype": ["multiplicative", "convolution"][(i + shard) % 2],
                    "order": [1, 2, 3, 0, 4, 5, 7][(i + shard // 2) % 7],
                    "field": ["scalar", "vector"][(i // 2 + shard) % 2],
                    "rt": rng.choice(["f32", "f64"]), "nt": rng.choice([False, 1, 2, 4, 8]), "fx": rng.random() < 0.5,
                    "shape": [rng.randint(3, 9) for _ in range(3)]})
    return out


def strategy(st, shard, shards, tier):
    from vf import oprun

    p = pool("C12/" + os.environ.get("VERIF_SEED", "1"), shard, tier)
    s = oprun.arr_specs(st)
    return st.builds(lambda e, a, b1, b2, n, lay, sh, dirty, old: dict(e, arr=a, b1=b1, b2=b2, reps=n, dirty=dirty, old=old, lay="C" if e["fx"] else lay,
                                                           shape=e["shape"] if e["fx"] else sh),
                     st.sampled_from(p), s, s, s, st.sampled_from([1, 1, 2, 3]), st.sampled_from(["C", "C", "pad", "F"]),
                     st.lists(st.integers(3, {"quick": 9, "thorough": 14}[tier]), min_size=3, max_size=3), st.booleans(), st.booleans())


_made = {}


def second_difference(f, ax):
    """1/4 (2 f - f[-1] - f[+1]) on inner cells, 0 on the outermost ring; and the sum of |terms|."""
    import numpy as np

    def part(g, sign):
        out = np.zeros_like(g)
        inner = tuple(slice(1, n - 1) for n in g.shape)
        p = np.roll(g, -1, ax)
        m = np.roll(g, 1, ax)
        out[inner] = (0.25 * (2 * g + sign * (p + m)))[inner]
        return out

    return part(f, -1.0)


def run(case):
    import json

    import numpy as np
    from vf import util

    real_t = util.rt(case["rt"])
    shape = tuple(case["shape"])
    vec = case["field"] == "vector"
    key = json.dumps({k: case[k] for k in ("ftype", "order", "field", "rt", "nt", "fx", "shape")}, sort_keys=True)
    if key not in _made:
        if len(_made) > 60:
            _made.clear()
        b1, b2 = np.zeros(shape, real_t), np.zeros(shape, real_t)
        kw = dict(filter_order=case["order"], filter_flux_buffer=b1, field_buffer=b2, real_t=real_t,
                  num_threads=case["nt"], field_type=case["field"], filter_type=case["ftype"])
        if case["fx"]:
            kw["fixed_grid_size"] = shape
        _made[key] = (util.fresh_kernel(util.SPNE, "gen_laplacian_filter_kernel_3d", **kw), b1, b2)
    k, b1, b2 = _made[key]
    b1[...] = util.expand(case["b1"], shape, real_t)
    b2[...] = util.expand(case["b2"], shape, real_t)
    if case.get("old") and case["order"]:
        b1[...] = b2[...] = np.nan
    b1_before = util.d(b1).copy()
    fs = ((3,) + shape) if vec else shape
    f = util.expand(case["arr"], fs, np.float64)
    if vec:
        f = f * np.array([1.0, -0.5, 2.0]).reshape(3, 1, 1, 1)
    f = util.laid_out(f.astype(real_t), case["lay"])
    ctx = "laplacian_filter_3d[%s,order=%d,%s,%s,nt=%s,fx=%s]" % (
        case["ftype"], case["order"], case["field"], case["rt"], case["nt"], case["fx"])
    known = {}
    changed = False
    n = case["order"]
    stages = [(2, 1, 0)] if case["ftype"] == "multiplicative" else [(2,), (1,), (0,)]

    def ref(q, stale):
        q = q.copy()
        for axes in stages:
            g = q.copy()
            for _ in range(n):
                for ax in axes:
                    g = second_difference(g, ax)
            if n:
                q = q - g
            elif stale is not None:
                q = q - stale
        return q

    for rep in range(case["reps"]):
        if rep and case.get("dirty"):  # someone else used the scratch buffers in between
            b1[...] = util.expand(case["b2"], shape, real_t)
            b2[...] = util.expand(case["b1"], shape, real_t)
            if case.get("old") and case["order"]:
                b1[...] = b2[...] = np.inf
            b1_before = util.d(b1).copy()
        before = np.array(f, copy=True)
        with util.sut(ctx, f):
            if vec:
                k(vector_field=f)
            else:
                k(scalar_field=f)
        for c in range(3) if vec else [None]:
            g, b = (f[c], before[c]) if vec else (f, before)
            amp = float(np.abs(util.d(b)).max())
            tol = util.eps(case["rt"]) * 16 * (3 * n + 3) * amp
            want = ref(util.d(b), None)
            ring = np.ones(shape, bool)
            ring[1:-1, 1:-1, 1:-1] = False
            try:
                util.close(g, want, tol, ctx)
                util.same(util.d(g)[ring], util.d(b)[ring], ctx + ": boundary cells changed")
            except util.CheckFailure as e:
                if n:
                    raise
                if np.abs(util.d(g)[~ring]).max() <= tol:
                    continue  # order 0 read as removing the whole field: well defined too
                # order 0: recorded finding, the scratch contents leak into the field
                stale = b1_before.copy()
                stale[ring] = 0.0
                util.close(g, ref(util.d(b), stale), tol + 16 * util.eps(case["rt"]) * np.abs(stale).max(), ctx)
                known["order0-stale-buffer"] = str(e)
            if case["arr"]["k"] == "const" or (case["arr"]["k"] == "poly" and len(case["arr"]["c"]) <= 4):
                if n and case["ftype"] == "convolution" and n == 1:
                    util.close(g, b, tol, ctx + ": a linear field must pass unfiltered")
        if known:
            break
        if not np.array_equal(before, f):
            changed = True
    return {"nontrivial": changed and n > 0, "known": known,
            "classes": [case["ftype"], "order %d" % n, case["field"], case["rt"], "fixed" if case["fx"] else "dynamic"]}
