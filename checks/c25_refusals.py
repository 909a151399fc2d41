"""C25: unusable configurations and mismatched fields are refused, and precision names map to one type and tolerance."""
import os
import random

from vf.ops import OPS
from vf import oprun

COUNTS = {"quick": 240, "thorough": 900}
RULE = ("per case one of: a generator called with a real type, field type, zone width, filter order or filter type outside its "
        "domain; a forcing class with another dimension; a kernel called with one field of another precision or size, or a "
        "fixed-size kernel with fields of another size; a precision name. Oracle: refusal (ValueError, TypeError or "
        "AssertionError), or the exact type and tolerance. Non-trivial: every case that must be refused.")
ASSUMPTIONS = ["python runs without -O: several refusals are assert statements"]

EXPLICIT = [{"t": "real", "op": "advflux_2d", "bad": "float16"}]

BAD_REAL = ["float16", "longdouble", "int32", "int", "complex64", "str", "none"]
BAD_STR = ["", "Scalar", "VECTOR", "tensor", "scalar ", "vect", "conv", "multiplicativ", "none"]
BAD_PREC = ["", "Single", "DOUBLE", "float", "single ", "half", "none", "double_", "32"]


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    rng = random.Random("C25/%s/%d" % (seed, shard))
    keys = sorted(OPS)
    typed = sorted(k for k in keys if "field_type" in OPS[k].cfg)
    mine = [k for i, k in enumerate(keys) if i % shards == shard]
    rng.shuffle(mine)
    mine = mine[:{"quick": 6, "thorough": 40}[tier]]
    entries = [{"op": k, "rt": rng.choice(["f32", "f64"]), "nt": rng.choice([False, 2]),
                "fx": (rng.choice(oprun.SHAPES2 if OPS[k].dim == 2 else oprun.SHAPES3) if OPS[k].fixable and rng.random() < 0.5 else None)}
               for k in mine]
    s = oprun.arr_specs(st)
    widths = sorted(k for k in keys if "width" in OPS[k].cfg)
    return st.one_of(
        st.fixed_dictionaries({"t": st.just("real"), "op": st.sampled_from(keys), "bad": st.sampled_from(BAD_REAL)}),
        st.fixed_dictionaries({"t": st.just("ftype"), "op": st.sampled_from(typed), "bad": st.sampled_from(BAD_STR)}),
        st.fixed_dictionaries({"t": st.just("width"), "op": st.sampled_from(widths), "bad": st.sampled_from([0, -1, -3, 1.5, 2.0, "1"])}),
        st.fixed_dictionaries({"t": st.just("penwidth"), "dim": st.sampled_from([2, 3]), "bad": st.sampled_from([-1, -2, 1.5, 2.0])}),
        st.fixed_dictionaries({"t": st.just("filter"), "kw": st.sampled_from(["filter_order", "field_type", "filter_type"]),
                               "bad": st.sampled_from(BAD_STR), "num": st.sampled_from([-1, -5, 1.5, 2.0])}),
        st.fixed_dictionaries({"t": st.just("ibdim"), "cls": st.integers(0, 1), "bad": st.sampled_from([0, 1, 4, -2])}),
        st.fixed_dictionaries({"t": st.just("prec"), "bad": st.sampled_from(BAD_PREC), "form": st.integers(0, 2)}),
        *([st.fixed_dictionaries({"t": st.just("call"), "e": st.sampled_from(entries), "pick": st.integers(0, 3),
                                  "how": st.sampled_from(["dtype", "shape", "shape", "all"]), "axis": st.integers(0, 2),
                                  "delta": st.sampled_from([-1, 1, 2]), "arr": s})] * 5))


def real(name):
    import numpy as np

    return {"float16": np.float16, "longdouble": np.longdouble, "int32": np.int32, "int": int, "complex64": np.complex64,
            "str": "single", "none": None}[name]


def run(case):
    import importlib

    import numpy as np
    from vf import util

    REFUSE = (ValueError, TypeError, AssertionError)
    t = case["t"]
    spne = importlib.import_module(util.SPNE)

    def gen(o, **kw):
        cfg = dict(o.cfg, real_t=np.float64, num_threads=False)
        if "midstep_buffer_vector_field" in cfg:
            cfg["midstep_buffer_vector_field"] = np.zeros((3, 5, 5, 5))
        cfg.update(kw)
        util.expect_raises(REFUSE, "%s(%s)" % (o.gen, {k: v for k, v in cfg.items() if not isinstance(v, np.ndarray)}),
                           getattr(spne, o.gen), **cfg)

    if t == "real":
        gen(OPS[case["op"]], real_t=real(case["bad"]))
    elif t == "ftype":
        gen(OPS[case["op"]], field_type=case["bad"])
    elif t == "width":
        gen(OPS[case["op"]], width=case["bad"])
    elif t == "penwidth":
        kw = dict(width=case["bad"], dx=0.1, real_t=np.float64, x_grid_field=np.zeros((6,) * case["dim"]), y_grid_field=np.zeros((6,) * case["dim"]))
        if case["dim"] == 3:
            kw["z_grid_field"] = np.zeros((6,) * 3)
        util.expect_raises(REFUSE, "penalise_field_boundary width=%r" % case["bad"],
                           getattr(spne, "gen_penalise_field_boundary_pyst_kernel_%dd" % case["dim"]), **kw)
    elif t == "filter":
        b = np.zeros((5, 5, 5))
        kw = dict(filter_order=1, filter_flux_buffer=b, field_buffer=b.copy(), real_t=np.float64, field_type="scalar",
                  filter_type="multiplicative")
        kw[case["kw"]] = case["num"] if case["kw"] == "filter_order" else case["bad"]
        util.expect_raises(REFUSE, "laplacian filter %s=%r" % (case["kw"], kw[case["kw"]]), spne.gen_laplacian_filter_kernel_3d, **kw)
    elif t == "ibdim":
        import sopht.numeric.immersed_boundary_ops as ib

        if case["cls"]:
            util.expect_raises(REFUSE, "VirtualBoundaryForcing(grid_dim=%d)" % case["bad"], ib.VirtualBoundaryForcing,
                               virtual_boundary_stiffness_coeff=1.0, virtual_boundary_damping_coeff=1.0, grid_dim=case["bad"],
                               dx=0.1, num_lag_nodes=2, real_t=np.float64)
        else:
            util.expect_raises(REFUSE, "BrinkmannBoundaryForcing(grid_dim=%d)" % case["bad"], ib.BrinkmannBoundaryForcing,
                               brinkmann_coeff=1.0, grid_dim=case["bad"], dx=0.1, eul_grid_coord_shift=0.05, num_lag_nodes=2,
                               interp_kernel_width=2, real_t=np.float64)
    elif t == "prec":
        from sopht.utils.precision import get_real_t, get_test_tol
        from sopht.utils.pyst_kernel_config import get_pyst_dtype

        form = {0: lambda f, p: f(p), 1: lambda f, p: f(precision=p), 2: lambda f, p: f(p)}[case["form"]]
        for name, ty, ps in (("single", np.float32, "float32"), ("double", np.float64, "float64")):
            with util.sut("precision " + name):
                got = form(get_real_t, name)
                tol = form(get_test_tol, name)
                dt = get_pyst_dtype(got)
            util.require(got is ty, "get_real_t(%r) is %r" % (name, got))
            util.require(type(tol) is ty and abs(float(tol) - 1e3 * float(np.finfo(ty).eps)) <= 1e-6 * float(tol),
                         "get_test_tol(%r) is %r" % (name, tol))
            util.require(dt == ps, "get_pyst_dtype(%r) is %r" % (got, dt))
        with util.sut("default precision"):
            util.require(get_real_t() is np.float32 and type(get_test_tol()) is np.float32, "default precision is not single")
        for f in (get_real_t, get_test_tol):
            util.expect_raises(REFUSE, "%s(%r)" % (f.__name__, case["bad"]), form, f, case["bad"])
    else:
        mismatch(case, np, util, REFUSE)
    return {"nontrivial": True, "classes": [t if t != "call" else "call:" + case["how"]]}


def mismatch(case, np, util, REFUSE):
    e = case["e"]
    o = OPS[e["op"]]
    shape = list(e["fx"] or ([9, 7] if o.dim == 2 else [6, 7, 8]))
    c = dict(e, shape=shape, arr={n: case["arr"] for n, _, _ in o.fields}, lay="C",
             par={n: ([0.5] * o.dim if k == "v" else 0.5) for n, k in o.pars})
    k = oprun.get_kernel(o, c)
    how = case["how"]
    ax = case["axis"] % o.dim

    def resized(a):
        m = list(a.shape)
        j = len(m) - o.dim + ax
        m[j] += case["delta"]
        return np.resize(a, m).copy()

    if how == "all" and not e["fx"]:
        how = "dtype"
    if how == "shape" and len(o.fields) == 1:
        how = "dtype"
    args, pars = oprun.build_args(o, c)
    name = o.fields[case["pick"] % len(o.fields)][0]
    if how == "dtype":
        other = {"f4": np.float64, "f8": np.float32, "c8": np.complex128, "c16": np.complex64}[args[name].dtype.str[1:]]
        args[name] = args[name].astype(other)
    elif how == "shape":
        args[name] = resized(args[name])
    else:
        args = {n: resized(a) for n, a in args.items()}
    what = "%s[%s,nt=%s,fx=%s] with %s" % (o.key, e["rt"], e["nt"], e["fx"],
                                          "fields of another size" if how == "all" else "%s of another %s" % (name, how))
    util.expect_raises(REFUSE, what, lambda: k(**args, **pars))
