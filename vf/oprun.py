"""Generation and execution of single-kernel cases shared by the stencil checks."""
import json
import random

SHAPES2 = [(7, 5), (5, 9), (6, 6), (11, 8), (8, 13), (16, 12), (9, 17)]
SHAPES3 = [(5, 6, 7), (7, 5, 6), (6, 6, 6), (5, 8, 5), (8, 7, 9), (6, 9, 5)]


# ------------------------------------------------------------------------- generation
def arr_specs(st):
    small = st.sampled_from([-2.5, -1.0, -0.5, 0.25, 1.0, 3.0])
    seeds = st.integers(0, 2 ** 20)
    mags = st.sampled_from([1.0, 1.0, 1.0, 1e-2, 50.0, 1e-7, 1e6])
    return st.one_of(
        st.builds(lambda c, v: {"k": "spikes", "c": c, "v": v},
                  st.lists(st.tuples(st.integers(0, 4000), small), min_size=1, max_size=4),
                  st.sampled_from([0.0, 0.0, 1.0])),
        st.builds(lambda s, m: {"k": "rand", "s": s, "m": m}, seeds, mags),
        st.builds(lambda s: {"k": "int", "s": s}, seeds),
        st.builds(lambda c: {"k": "poly", "c": c},
                  st.lists(st.sampled_from([-1.0, -0.5, 0.0, 0.5, 1.0, 2.0]), min_size=1, max_size=7)),
        st.builds(lambda w, p: {"k": "wave", "w": w, "p": p},
                  st.lists(st.integers(0, 3), min_size=1, max_size=3), st.sampled_from([0.0, 0.3, 1.1])),
        st.builds(lambda v: {"k": "const", "v": v}, small),
        st.builds(lambda s, m: {"k": "rand", "s": s, "m": m}, seeds, mags),
    )


def shapes(st, dim, lo, tier):
    hi = {(2, "quick"): 20, (2, "thorough"): 40, (3, "quick"): 9, (3, "thorough"): 14}[(dim, tier)]
    small = st.lists(st.integers(lo, max(hi, lo + 1)), min_size=dim, max_size=dim)
    cube = st.integers(lo, max(hi, lo + 1)).map(lambda n: [n] * dim)
    long = st.builds(lambda s, ax, n: s[:ax] + [n] + s[ax + 1:], small, st.integers(0, dim - 1),
                     st.sampled_from([31, 32, 33, 47, 64, 65, 100, 129]))
    big = st.sampled_from([[96, 130], [257, 40], [128, 128], [65, 300], [8, 1025]] if dim == 2 else
                          [[33, 34, 36], [24, 65, 12], [64, 20, 16], [10, 12, 130]])
    huge = st.sampled_from([[310, 290], [1, 70000], [70000, 1], [520, 260]] if dim == 2 else [[44, 40, 48], [1, 300, 260], [260, 17, 20]])
    huge = huge.map(lambda s: [max(lo, n) for n in s])
    return st.integers(0, 74).flatmap(lambda k: small if k < 48 else cube if k < 60 else long if k < 71 else big if k < 74 else huge)


def make_pool(ops, keys, ctx_seed, shard, shards, per_op, tier):
    """(op, config) entries of this shard: a deterministic sample, so that each
    worker compiles a bounded number of kernels while the shards together cover
    every operation in every kind of configuration."""
    rng = random.Random("%s/%d" % (ctx_seed, shard))
    pool = []
    mine = [k for i, k in enumerate(keys)]
    for i, k in enumerate(mine):
        o = ops[k]
        spread = max(1, shards // max(1, per_op["copies"]))
        if (i + shard) % spread:
            continue
        combos = [("f64", False), ("f32", 2), ("f64", 3), ("f32", False), ("f64", 4), ("f32", 1), ("f64", 2), ("f32", 8), ("f32", True), ("f64", 8)]
        rng.shuffle(combos)
        for j in range(per_op["configs"]):
            rtn, nt = combos[j % len(combos)]
            fixed = None
            if o.fixable and (j % 2 == 1):
                base = rng.choice(SHAPES2 if o.dim == 2 else SHAPES3)
                need = 2 * o.rad + 1
                fixed = [max(need, n) for n in base]
            pool.append({"op": k, "rt": rtn, "nt": nt, "fx": fixed})
    return pool


def par_strategy(st):
    return st.sampled_from([0.0, 1.0, -1.0, 0.5, 0.25, -2.0, 0.1, 3.7, 1e-3, 17.0, 1e-7, -3e-12, 2e4])


def op_case(st, ops, pool, tier, keymap=None):
    """Strategy for cases {op, rt, nt, fx, shape, arr, par, lay, alias, reps}."""
    specs = arr_specs(st)
    pars = par_strategy(st)

    @st.composite
    def case(draw):
        e = draw(st.sampled_from(pool))
        o = ops[e["op"]]
        c = dict(e)
        lo = 2 * o.rad + 1 if o.rad else 1
        if o.cfg.get("width"):
            lo = max(lo, 2)
        c["shape"] = e["fx"] if e["fx"] else draw(shapes(st, o.dim, lo, tier))
        arr = {}
        for name, kind, role in o.fields:
            arr[name] = draw(specs)
        c["arr"] = arr
        par = {}
        for name, kind in o.pars:
            if kind == "r":
                par[name] = draw(pars)
            elif kind == "p":
                par[name] = draw(st.sampled_from([0.0, 1.0, 1e-3, 0.5, 10.0, 1e3, 1e6, 1e-8, 1e11]))
            elif kind == "v":
                par[name] = draw(st.lists(pars, min_size=o.dim, max_size=o.dim))
        c["par"] = par
        c["num"] = draw(st.sampled_from(["np", "np", "py"]))  # how scalar parameters are passed
        if e["fx"] or not o.layouts:
            c["lay"] = "C"
        else:
            c["lay"] = draw(st.sampled_from(["C", "C", "pad", "skip", "F", "one", "mix"]))
        c["alias"] = None
        if o.alias and draw(st.integers(0, 2)) == 0:
            c["alias"] = list(draw(st.sampled_from(list(o.alias))))
        c["reps"] = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4, 9]))
        if draw(st.integers(0, 3)) == 0:
            c["mag"] = draw(st.lists(st.sampled_from([1.0, 1e-9, 1e-5, 1e3, 1e6]), min_size=1, max_size=3))
        c["old"] = draw(st.sampled_from([None, None, None, "nan", "inf", "huge"]))  # prior contents of outputs and buffers
        if c["reps"] > 1:
            c["mode"] = draw(st.sampled_from(["fresh", "refill", "refill", "out", "in"]))
            c["parmul"] = draw(st.sampled_from([1.0, 1.0, -0.5, 0.0]))
        return c

    return case()


# -------------------------------------------------------------------------- execution
def cfg_of(o, case, real_t):
    cfg = {"real_t": real_t, "num_threads": case["nt"]}
    cfg.update(o.cfg)
    if case["fx"]:
        cfg["fixed_grid_size"] = tuple(case["fx"])
    return cfg


def get_kernel(o, case, gen=None):
    import numpy as np
    from vf import util

    real_t = util.rt(case["rt"])
    cfg = cfg_of(o, case, real_t)
    if "midstep_buffer_vector_field" in cfg:
        # bound to one shape: cheap to rebuild, the compiled code is cached on disk
        buf = np.full((3,) + tuple(case["shape"]), 3.25, dtype=real_t)
        cfg["midstep_buffer_vector_field"] = buf
        key = (o.key, case["rt"], case["nt"], str(case["fx"]), tuple(case["shape"]))
        if key not in _bound:
            if len(_bound) > 40:
                _bound.clear()
            _bound[key] = util.fresh_kernel(util.SPNE, o.gen, **cfg)
        return _bound[key]
    return util.kernel(util.SPNE, o.gen, **cfg)


_bound = {}


def field_shape(o, kind, shape):
    return ((o.dim,) + tuple(shape)) if kind == "v" else tuple(shape)


def build_args(o, case, rep=0):
    import numpy as np
    from vf import util

    real_t = util.rt(case["rt"])
    shape = tuple(case["shape"])
    args = {}
    mags = case.get("mag") or [1.0]
    for i, (name, kind, role) in enumerate(o.fields):
        spec = dict(case["arr"][name])
        if "s" in spec:
            spec["s"] = spec["s"] + 7919 * rep
        elif rep:
            spec = {"k": "rand", "s": 31 * rep + len(name), "m": 1.0}
        fs = field_shape(o, kind, shape)
        if kind == "c":
            ct = np.complex64 if real_t == np.float32 else np.complex128
            a = util.expand(spec, fs, np.float64)
            b = util.expand(spec, fs[::-1], np.float64).transpose()[tuple(slice(None, None, -1) for _ in fs)]
            a = (a + 1j * (0.5 * b + 0.25)).astype(ct)
        elif kind == "chi":
            a = util.expand(spec, fs, np.float64)
            a = np.clip(np.abs(a) - 0.2, 0.0, 1.0).astype(real_t)
        else:
            a = util.expand(spec, fs, np.float64)
            if kind == "v":  # make components differ
                a = a * (1.0 + 0.5 * np.arange(o.dim).reshape((-1,) + (1,) * o.dim))
            a = (a * mags[i % len(mags)]).astype(real_t)
        lay = case["lay"]
        if lay == "mix":
            lay = ["C", "F", "pad", "skip"][(i * 3 + rep + len(name)) % 4]
        args[name] = a if lay == "one" else util.laid_out(a, lay)
    if case["lay"] == "one":  # all fields side by side in one storage
        store = np.zeros(sum(a.size for a in args.values()) + 5, next(iter(args.values())).dtype)
        at = 2
        for name, a in args.items():
            part = store[at:at + a.size].reshape(a.shape)
            part[...] = a
            args[name] = part
            at += a.size
    if case.get("alias"):
        out, src = case["alias"]
        args[out] = args[src]
    pars = {}
    conv = (lambda x: float(real_t(x))) if case.get("num") == "py" else real_t
    for name, kind in o.pars:
        v = case["par"][name]
        if kind == "v":
            pars[name] = [conv(x) for x in v]
        else:
            pars[name] = conv(v)
    return args, pars


def next_args(o, case, rep, args, pars):
    """Arguments of the next call of a sequence: new arrays, or the same array objects holding new data."""
    import numpy as np

    mode = case.get("mode", "fresh")
    new, newpars = build_args(o, case, rep)
    mul = case.get("parmul", 1.0) if rep % 2 else 1.0
    if mul != 1.0:
        newpars = {k: ([x * type(x)(mul) for x in v] if isinstance(v, list) else v * type(v)(abs(mul) if dict(o.pars)[k] == "p" else mul))
                   for k, v in newpars.items()}
    if rep == 0 or mode == "fresh":
        return new, newpars
    big = not all(np.abs(a).max(initial=0.0) < 1e6 for a in args.values())
    for name, kind, role in o.fields:
        if mode == "refill" or big or (mode == "out") == (role != "in"):
            args[name][...] = new[name]
    return args, newpars


def spoil(o, case, args, pars):
    """Fill outputs and buffers whose prior contents must not matter with values that would show."""
    import numpy as np

    what = {"nan": np.nan, "inf": np.inf, "huge": 1e30}[case["old"]]
    if case.get("alias") or o.cplx:
        return
    for name, kind, role in o.fields:
        if role == "in":
            continue
        keep = args[name].copy()
        args[name][...] = what
        if role == "buf":
            continue
        with np.errstate(all="ignore"):
            r = o.ref(dbl(o, args, pars))
        if any(v is not None and not (np.abs(v[0]) < 1e29).all() for v in r.values()):
            args[name][...] = keep  # the result does depend on it


def dbl(o, args, pars):
    import numpy as np

    a = {k: (v.astype(np.complex128) if np.iscomplexobj(v) else np.array(v, dtype=np.float64))
         for k, v in args.items()}
    for k, v in pars.items():
        a[k] = [float(x) for x in v] if isinstance(v, list) else float(v)
    return a


def compare(o, case, name, got, exp, scale, tie, ctx):
    import numpy as np
    from vf import util

    tol = o.tol * util.eps(case["rt"]) * scale
    tiny = 1e-30 if case["rt"] == "f32" else 1e-290
    tol = tol + np.where(scale > 0, tiny, 0.0)
    if tie is not None:
        tol = tol + tie * 1.0000001
    if np.iscomplexobj(got):
        util.close(got.real, exp.real, tol, "%s %s (real)" % (ctx, name))
        util.close(got.imag, exp.imag, tol, "%s %s (imag)" % (ctx, name))
    else:
        util.close(got, exp, tol, "%s %s" % (ctx, name))


def run_op(o, case, extra=None, alts=None):
    """Compare the kernel with its reference for one case; returns class labels."""
    import numpy as np
    from vf import util

    k = get_kernel(o, case)
    ctx = "%s[%s,nt=%s,fx=%s]" % (o.gen, case["rt"], case["nt"], case["fx"])
    nontrivial = False
    labels = set()
    known = {}
    args = pars = None
    for rep in range(case.get("reps", 1)):
        args, pars = next_args(o, case, rep, args, pars)
        if case.get("old"):
            spoil(o, case, args, pars)
        ref = o.ref(dbl(o, args, pars))
        before = {n: np.array(a, copy=True) for n, a in args.items()}
        with util.sut(ctx, *args.values()):
            k(**args, **pars)
        written = [args[n] for n in ref]
        for name, kind, role in o.fields:
            if name in ref:
                if ref[name] is None:
                    continue
                r = ref[name]
                try:
                    compare(o, case, name, args[name], r[0], r[1], r[2] if len(r) > 2 else None, ctx)
                except util.CheckFailure as fail:
                    # does it fail exactly in a way recorded as a known finding?
                    for sig, alt in (alts or {}).items():
                        q = alt(dbl(o, before, pars))[name]
                        try:
                            compare(o, case, name, args[name], q[0], q[1], None, ctx)
                        except util.CheckFailure:
                            continue
                        known[sig] = str(fail)
                        break
                    else:
                        raise
                if not np.array_equal(np.asarray(before[name]), np.asarray(args[name])):
                    nontrivial = True
            elif not any(args[name] is w for w in written):
                util.same(args[name], before[name], "%s: input %s modified" % (ctx, name))
        if extra is not None:
            labels.update(extra(o, case, k, args, pars, before, ctx) or ())
    classes = [o.key, case["rt"], "threads" if case["nt"] else "serial",
               "fixed" if case["fx"] else "dynamic", "layout:" + case["lay"]]
    if case.get("alias"):
        classes.append("aliased")
    if case.get("old"):
        classes.append("old contents:" + case["old"])
    if case.get("mag"):
        classes.append("scaled fields")
    if len(set(case["shape"])) > 1:
        classes.append("nonsquare")
    if case.get("reps", 1) > 1:
        classes.append("repeated:" + case.get("mode", "fresh"))
    classes += sorted(labels)
    return {"nontrivial": nontrivial, "classes": classes, "known": known}
