"""C16: kernels keep no state: any interleaving on shared fields equals the isolated references."""
import importlib
import os
import random

from vf.ops import OPS
from vf import oprun

COUNTS = {"quick": 150, "thorough": 1200}
RULE = ("histories of 3-14 steps per case on one shared set of fields in both precisions: kernels of different generators and "
        "several configurations of one generator (precision, threads, fixed/dynamic size, widths, ghost-zone options) alive at "
        "once, plus unbounded Poisson solves, boundary penalisation, Neumann solves, transforms and filters of several settings on the same grid, plus steps on windows of the fields, the very same call repeated later, and writes by the caller. After every step the output is compared with "
        "the reference on the actual state before it, and every other field must be bitwise unchanged. Non-trivial: at least 3 "
        "steps that changed a field, by at least 2 kernels.")
ASSUMPTIONS = ["fields are rescaled by the harness between steps when they grow beyond 1e3"]

# generators with options that a careless cache or shared buffer would mix up
FAMILIES = [
    ["bset_scalar_w1", "bset_scalar_w3", "bset_vector_w2", "bset_vector_w1"],
    ["char_a", "char_b", "char_c"],
    ["diff_reset", "diff_noreset", "diffv_reset", "diffv_noreset", "diffstep", "diffstep_scalar", "diffstep_vector"],
    ["outcurl_reset", "outcurl_noreset", "curl_reset", "curl_noreset", "div_reset", "div_noreset"],
    ["sum_scalar", "sum_vector", "saxpby_scalar", "saxpby_vector", "copy", "add_vector", "add_scalar"],
    ["set_vector", "set_scalar"],
    ["advflux", "advstep", "advstep_scalar", "advstep_vector"],
    ["stretch_rk3", "stretch_euler", "stretch", "vforce", "vpen", "cross"],
    ["brink_scalar", "brink_vector", "brinkfix_scalar", "brinkfix_vector"],
]


def make_pool(seed, shard, tier):
    rng = random.Random("C16/%s/%d" % (seed, shard))
    dim = 2 + shard % 2
    shape = list(rng.choice([(7, 9), (8, 11), (10, 6)] if dim == 2 else [(5, 6, 7), (6, 7, 5), (7, 5, 6)]))
    entries = []
    fams = FAMILIES[:]
    rng.shuffle(fams)
    nfam, per = {"quick": (9, 3), "thorough": (9, 5)}[tier]
    for fam in fams[:nfam]:
        have = [k for k in ("%s_%dd" % (f, dim) for f in fam) if k in OPS]
        rng.shuffle(have)
        # kernels of one family mostly agree in all settings but one, so that a cache keyed too coarsely confuses them
        base = {"rt": rng.choice(["f64", "f32"]), "nt": rng.choice([False, 1, 2, 4]), "fx": rng.choice([None, None, shape])}
        for i, k in enumerate(have[:per]):
            o = OPS[k]
            for e in [base] + ([dict(base, rt="f32" if base["rt"] == "f64" else "f64")] if rng.random() < 0.4 else []) + (
                    [dict(base, fx=None if base["fx"] else shape)] if rng.random() < 0.2 else []) + (
                    [dict(base, nt=rng.choice([1, 3, 4]))] if rng.random() < 0.2 else []):
                entries.append(dict(e, op=k, fx=e["fx"] if o.fixable else None))
    return dim, shape, entries


def peers(st, dim, shape, s):
    """Whole cases of the checks of stateful generators and solvers, on one grid and differing in a setting or two."""
    rt, nt = st.sampled_from(["f64", "f64", "f32"]), st.sampled_from([False, False, 2])
    lay = st.sampled_from(["C", "pad"])
    ft = st.sampled_from(["scalar", "vector"] if dim == 3 else ["scalar"])
    fade = st.fixed_dictionaries({
        "dim": st.just(dim), "width": st.integers(0, 2), "shape": st.just(shape), "rt": rt, "nt": nt, "fx": st.booleans(),
        "dx": st.sampled_from([0.1, 1.0]), "x0": st.sampled_from([[0.5] * dim, [2.0, -1.0, 0.0][:dim]]), "ft": ft,
        "arr": s, "reps": st.just(1), "lay": st.just("C")})
    cfg14 = st.fixed_dictionaries({"dim": st.just(dim), "shape": st.just(shape), "dx": st.sampled_from([0.1, 0.25]), "rt": rt})
    neumann = st.fixed_dictionaries({
        "a": cfg14, "b": cfg14, "steps": st.lists(st.fixed_dictionaries({
            "which": st.sampled_from([0, 1]), "arr": s, "vec": st.booleans(), "lay": lay, "inplace": st.just(False)}),
            min_size=1, max_size=2)})
    cfg13 = st.fixed_dictionaries({"dim": st.just(dim), "shape": st.just(shape), "L": st.sampled_from([1.0, 2.0]), "rt": rt,
                                   "nt": st.sampled_from([1, 2])})
    free = st.fixed_dictionaries({
        "a": cfg13, "b": cfg13, "steps": st.lists(st.fixed_dictionaries({
            "which": st.sampled_from([0, 1]), "arr": s, "vec": st.booleans(), "out": st.sampled_from(["new", "same"]), "lay": lay}),
            min_size=1, max_size=2)})
    fft = st.fixed_dictionaries({
        "dim": st.just(dim), "shape": st.just(shape), "rt": rt, "nt": st.sampled_from([1, 2]), "arrs": st.lists(s, min_size=1, max_size=2),
        "peers": st.just([]), "order": st.just([0, 1, 2])})
    kinds = [("c11_boundary_penalise", fade), ("c14_neumann_poisson", neumann), ("c13_unbounded_poisson", free), ("c15_fft", fft)]
    if dim == 3:
        filt = st.fixed_dictionaries({
            "ftype": st.sampled_from(["multiplicative", "convolution"]), "order": st.integers(1, 2), "field": ft, "rt": rt, "nt": nt,
            "fx": st.booleans(), "shape": st.just(shape), "arr": s, "b1": s, "b2": s, "reps": st.just(1), "lay": st.just("C")})
        kinds += [("c12_laplacian_filter", filt)] * 2
    return st.one_of(*[st.builds(lambda c, m=m: {"mod": m, "case": c}, c) for m, c in kinds])


def strategy(st, shard, shards, tier):
    dim, shape, entries = make_pool(os.environ.get("VERIF_SEED", "1"), shard, tier)
    pars = oprun.par_strategy(st)
    s = oprun.arr_specs(st)
    kstep = st.fixed_dictionaries({
        "e": st.sampled_from(entries), "sel": st.lists(st.integers(0, 3), min_size=5, max_size=5),
        "par": st.lists(pars, min_size=5, max_size=5), "win": st.booleans(), "again": st.booleans()})
    solve = st.fixed_dictionaries({"solve": st.just(1), "rt": st.sampled_from(["f32", "f64"]),
                                   "sel": st.lists(st.integers(0, 3), min_size=2, max_size=2)})
    redo = st.fixed_dictionaries({"redo": st.integers(1, 4), "dirty": st.sampled_from([None, 0.0, 2.0, -1.0])})
    poke = st.fixed_dictionaries({"poke": st.integers(0, 23), "at": st.integers(0, 5000), "v": st.sampled_from([0.0, 1.0, -3.5])})
    return st.fixed_dictionaries({
        "dim": st.just(dim), "shape": st.just(shape), "init": st.lists(s, min_size=4, max_size=4),
        "steps": st.lists(st.one_of(kstep, kstep, kstep, kstep, kstep, solve, redo, redo, redo, poke,
                                   peers(st, dim, shape, s)), min_size=3, max_size=14)})


def run(case):
    import numpy as np
    from checks import c13_unbounded_poisson as c13
    from vf import util

    dim, shape = case["dim"], tuple(case["shape"])
    fields = {}
    for rt in ("f32", "f64"):
        real_t = util.rt(rt)
        for i in range(4):
            spec = case["init"][i]
            fields[rt, "s", i] = util.expand(spec, shape, real_t)
            v = util.expand(case["init"][i - 1], (dim,) + shape, np.float64)
            fields[rt, "v", i] = (v * (1 + 0.5 * np.arange(dim)).reshape((-1,) + (1,) * dim)).astype(real_t)
            fields[rt, "chi", i] = np.clip(np.abs(util.expand(spec, shape, np.float64)) - 0.2, 0, 1).astype(real_t)
    changed, used = 0, set()
    labels = set()
    views = {}
    past = []
    for n, s in enumerate(case["steps"]):
        if "poke" in s:  # the caller writes to a field itself
            kind = "sv"[s["poke"] % 2]
            f = fields[("f32", "f64")[s["poke"] // 2 % 2], kind, s["poke"] // 4 % 4]
            f.reshape(-1)[s["at"] % f.size] = s["v"]
            labels.add("poke")
            continue
        if "mod" in s:  # a kernel or solver of another kind at work on its own fields
            before = {k: f.copy() for k, f in fields.items()}
            importlib.import_module("checks." + s["mod"]).run(s["case"])
            for k in fields:
                util.same(fields[k], before[k], "step %d (%s) changed the unrelated field %s" % (n, s["mod"], k))
            changed += 1
            labels.add(s["mod"])
            used.add(s["mod"])
            continue
        if "redo" in s:  # the very same call again: same arrays, same values
            if not past:
                continue
            dirty = s["dirty"]
            s, wrote = past[-min(s["redo"], len(past))]
            labels.add("same call again")
            if dirty is not None:  # the caller overwrote what the call had written
                for k in wrote:
                    fields[k].reshape(-1)[::2] = dirty
        before = {k: f.copy() for k, f in fields.items()}
        if "solve" in s:
            rt = s["rt"]
            a, b = s["sel"][0], (s["sel"][1] if s["sel"][1] != s["sel"][0] else (s["sel"][1] + 1) % 4)
            cfg = {"dim": dim, "shape": list(shape), "L": 1.0, "rt": rt, "nt": 1}
            sv = c13.solver(cfg)
            ctx = "step %d: Poisson solve [%s]" % (n, rt)
            with util.sut(ctx):
                sv.solve(solution_field=fields[rt, "s", b], rhs_field=fields[rt, "s", a])
            g, slack = c13.green(cfg)
            q = util.d(before[rt, "s", a]).reshape(-1)
            tol = util.eps(rt) * (8 * (slack @ np.abs(q)) + 12 * np.log2(4 * q.size + 2) * np.sqrt(
                (g ** 2).sum(1).max() * 2 ** dim * (q ** 2).sum()))
            util.close(fields[rt, "s", b].reshape(-1), g @ q, tol, ctx)
            outs = {(rt, "s", b)}
            used.add("solve")
        else:
            outs = kernel_step(n, s, dim, shape, fields, views, util, np)
            used.add(str(s["e"]))
            labels.add(s["e"]["op"])
            if s["win"]:
                labels.add("window")
        past.append((s, sorted(outs)))
        for k in fields:
            if k not in outs:
                util.same(fields[k], before[k], "step %d changed the unrelated field %s" % (n, k))
        if "e" in s and s["e"]["op"].startswith("set_") or any(not np.array_equal(fields[k], before[k]) for k in outs):
            changed += 1
        for k in outs:
            top = np.abs(fields[k]).max()
            if not top < 1e3:
                fields[k][...] = util.expand({"k": "rand", "s": n}, fields[k].shape, np.float64)
    return {"nontrivial": changed >= 3 and len(used) >= 2,
            "classes": ["%dd" % dim, "steps %s" % ("3-5" if len(case["steps"]) < 6 else "6-14")] + sorted(labels)}


def kernel_step(n, s, dim, shape, fields, views, util, np):
    e = s["e"]
    o = OPS[e["op"]]
    rt = e["rt"]
    real_t = util.rt(rt)
    bound = "midstep_buffer_vector_field" in o.cfg
    sub = tuple(slice(None) for _ in shape)
    if s["win"] and not e["fx"] and o.layouts and not bound:
        cut = [slice(1, None), slice(None, -1), slice(None)]
        cand = tuple(cut[(s["sel"][i] + i) % 3] for i in range(dim))
        need = max(2 * o.rad + 1, 2)
        if all(len(range(*c.indices(m))) >= need for c, m in zip(cand, shape)):
            sub = cand
    ccase = dict(e, shape=list(shape), arr={}, par={}, lay="C")
    k = oprun.get_kernel(o, ccase)
    taken = {}
    args, outs = {}, set()
    roles = sorted(range(len(o.fields)), key=lambda i: o.fields[i][2] == "in")  # what is written first
    for r in roles:
        name, kind, role = o.fields[r]
        i = s["sel"][r]
        if role == "in":
            while (kind, i) in taken and taken[kind, i] == "w":
                i = (i + 1) % 4
            taken.setdefault((kind, i), "r")
        else:
            while (kind, i) in taken:
                i = (i + 1) % 4
            taken[kind, i] = "w"
            outs.add((rt, kind, i))
        key = (rt, kind, i, str(sub))
        if key not in views:  # the same object whenever the same window is used again
            f = fields[rt, kind, i]
            views[key] = f[((Ellipsis,) + sub)] if any(c != slice(None) for c in sub) else f
        args[name] = views[key]
    pars = {}
    for r, (name, kind) in enumerate(o.pars):
        if kind == "v":
            pars[name] = [real_t(x) for x in s["par"][:dim]]
        else:
            pars[name] = real_t(abs(s["par"][r]) if kind == "p" else s["par"][r])
    ctx = "step %d: %s[%s,nt=%s,fx=%s]" % (n, o.key, rt, e["nt"], e["fx"])
    whole = {k2: fields[k2].copy() for k2 in outs}
    alts = {}
    if o.key == "stretch_rk3_3d":
        from vf.ops import r_stretch_rk3
        alts = lambda a: r_stretch_rk3(a, 0.5)  # noqa: E731  the listed C08 finding; judged there
    for rep in range(2 if s["again"] else 1):
        a = oprun.dbl(o, args, pars)
        ref = o.ref(a)
        alt = alts(a) if alts else None
        with util.sut(ctx):
            k(**args, **pars)
        for name, r in ref.items():
            if r is None:
                continue
            try:
                oprun.compare(o, ccase, name, args[name], r[0], r[1], r[2] if len(r) > 2 else None, ctx)
            except util.CheckFailure:
                if alt is None:
                    raise
                r = alt[name]
                oprun.compare(o, ccase, name, args[name], r[0], r[1], None, ctx)
        for name, kind, role in o.fields:
            if role != "in":
                top = np.abs(args[name]).max(initial=0.0)
                if not top < 1e3:
                    return outs
    for k2 in outs:  # nothing outside the window
        mask = np.ones(fields[k2].shape, bool)
        mask[(Ellipsis,) + sub] = False
        util.same(fields[k2][mask], whole[k2][mask], ctx + ": cells outside the window changed")
    return outs
