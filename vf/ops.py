"""Reference semantics of the stencil kernels, written independently in float64.

Each Op lists the public generator, its keyword arguments and a reference that
maps the argument values to {output: (expected, scale)}.  `scale` is the sum of
the absolute values of the terms that make up each cell, so C * eps * scale
bounds honest rounding; scale 0 demands the exact value (cells that must not be
written, cells that are set).
"""
import numpy as np


class Op:
    def __init__(self, key, gen, dim, fields, pars, ref, cfg=None, rad=0, alias=(), tol=24.0,
                 fixable=True, cplx=False, layouts=True):
        self.key, self.gen, self.dim, self.fields, self.pars = key, gen, dim, fields, pars
        self.ref, self.cfg, self.rad, self.alias, self.tol = ref, cfg or {}, rad, alias, tol
        self.fixable, self.cplx, self.layouts = fixable, cplx, layouts
        self.outs = [n for n, k, role in fields if role in ("out", "inout")]


OPS = {}


def op(*a, **k):
    o = Op(*a, **k)
    OPS[o.key] = o
    return o


# ------------------------------------------------------------------ stencil helpers
def win(f, w, axis=None, off=0):
    """f on the cells at least w away from every face, shifted by off along axis."""
    sl = [slice(w, n - w) for n in f.shape]
    if axis is not None:
        n = f.shape[axis]
        sl[axis] = slice(w + off, n - w + off)
    return f[tuple(sl)]


def inner(shape, w):
    return tuple(slice(w, n - w) for n in shape)


def X(dim, comp):
    """Array axis of spatial direction comp (x is the last axis)."""
    return dim - 1 - comp


def cd(f, comp, w=1):
    """f[+1] - f[-1] along direction comp, and the sum of absolute values."""
    ax = X(f.ndim, comp)
    p, m = win(f, w, ax, 1), win(f, w, ax, -1)
    return p - m, np.abs(p) + np.abs(m)


def keep(a):
    return np.array(a, dtype=np.float64), np.zeros(np.shape(a))


def zero_ring(a, s, w=1):
    m = np.ones(a.shape, bool)
    m[inner(a.shape, w)] = False
    a[m] = 0.0
    s[m] = 0.0


# ----------------------------------------------------------------------- elementwise
def r_sum(a):
    x, y = a["field_1"], a["field_2"]
    return {"sum_field": (x + y, np.abs(x) + np.abs(y))}


def r_saxpby(a):
    x, y, p, q = a["field_1"], a["field_2"], a["field_1_prefac"], a["field_2_prefac"]
    return {"sum_field": (p * x + q * y, np.abs(p * x) + np.abs(q * y))}


def r_set(a):
    return {"field": (np.full(a["field"].shape, a["fixed_val"]), np.zeros(a["field"].shape))}


def bc(v, arr):
    return np.asarray(v, float).reshape((-1,) + (1,) * (arr.ndim - 1)) + np.zeros(arr.shape)


def r_setv(a):
    f = a["vector_field"]
    return {"vector_field": (bc(a["fixed_vals"], f), np.zeros(f.shape))}


def r_copy(a):
    return {"field": (a["rhs_field"].copy(), np.zeros(a["field"].shape))}


def r_add(a):
    return {"sum_field": (a["field"] + a["fixed_val"], np.abs(a["field"]) + abs(a["fixed_val"]))}


def r_addv(a):
    f = a["vector_field"]
    v = bc(a["fixed_vals"], f)
    return {"sum_field": (f + v, np.abs(f) + np.abs(v))}


def r_cplx(a):
    x, y = a["field_1"], a["field_2"]
    re = x.real * y.real - x.imag * y.imag
    im = x.real * y.imag + x.imag * y.real
    s = (np.abs(x.real) + np.abs(x.imag)) * (np.abs(y.real) + np.abs(y.imag))
    return {"product_field": (re + 1j * im, s)}


def r_cross(a):
    x, y = a["field_1"], a["field_2"]
    out = np.zeros_like(x)
    s = np.zeros_like(x)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        out[i] = x[j] * y[k] - x[k] * y[j]
        s[i] = np.abs(x[j] * y[k]) + np.abs(x[k] * y[j])
    return {"result_field": (out, s)}


for D in (2, 3):
    for ft, k in (("scalar", "s"), ("vector", "v")):
        op("sum_%s_%dd" % (ft, D), "gen_elementwise_sum_pyst_kernel_%dd" % D, D,
           [("sum_field", k, "out"), ("field_1", k, "in"), ("field_2", k, "in")], [], r_sum,
           {"field_type": ft}, alias=[("sum_field", "field_1"), ("sum_field", "field_2")])
        op("saxpby_%s_%dd" % (ft, D), "gen_elementwise_saxpby_pyst_kernel_%dd" % D, D,
           [("sum_field", k, "out"), ("field_1", k, "in"), ("field_2", k, "in")],
           [("field_1_prefac", "r"), ("field_2_prefac", "r")], r_saxpby,
           {"field_type": ft}, alias=[("sum_field", "field_1"), ("sum_field", "field_2")])
    op("set_scalar_%dd" % D, "gen_set_fixed_val_pyst_kernel_%dd" % D, D,
       [("field", "s", "out")], [("fixed_val", "r")], r_set, {"field_type": "scalar"})
    op("set_vector_%dd" % D, "gen_set_fixed_val_pyst_kernel_%dd" % D, D,
       [("vector_field", "v", "out")], [("fixed_vals", "v")], r_setv, {"field_type": "vector"})
    op("copy_%dd" % D, "gen_elementwise_copy_pyst_kernel_%dd" % D, D,
       [("field", "s", "out"), ("rhs_field", "s", "in")], [], r_copy)
    op("add_scalar_%dd" % D, "gen_add_fixed_val_pyst_kernel_%dd" % D, D,
       [("sum_field", "s", "out"), ("field", "s", "in")], [("fixed_val", "r")], r_add,
       {"field_type": "scalar"}, alias=[("sum_field", "field")])
    op("add_vector_%dd" % D, "gen_add_fixed_val_pyst_kernel_%dd" % D, D,
       [("sum_field", "v", "out"), ("vector_field", "v", "in")], [("fixed_vals", "v")], r_addv,
       {"field_type": "vector"}, alias=[("sum_field", "vector_field")])
    # fixed-size kernels do not accept the strided .real/.imag views (a stated TODO)
    op("cplx_%dd" % D, "gen_elementwise_complex_product_pyst_kernel_%dd" % D, D,
       [("product_field", "c", "out"), ("field_1", "c", "in"), ("field_2", "c", "in")], [], r_cplx,
       fixable=False, cplx=True)
op("cross_3d", "gen_elementwise_cross_product_pyst_kernel_3d", 3,
   [("result_field", "v", "out"), ("field_1", "v", "in"), ("field_2", "v", "in")], [], r_cross)


# -------------------------------------------------------------------------- boundary
def ring(shape, w):
    m = np.zeros(shape, bool)
    for ax, n in enumerate(shape):
        i = np.arange(n).reshape([-1 if d == ax else 1 for d in range(len(shape))])
        m |= (i < w) | (i >= n - w)
    return m


def r_bset(w):
    def ref(a):
        f = a["field"].copy()
        f[ring(f.shape, w)] = a["fixed_val"]
        return {"field": (f, np.zeros(f.shape))}
    return ref


def r_bsetv(w):
    def ref(a):
        f = a["vector_field"].copy()
        for c in range(f.shape[0]):
            f[c][ring(f.shape[1:], w)] = a["fixed_vals"][c]
        return {"vector_field": (f, np.zeros(f.shape))}
    return ref


for D in (2, 3):
    for W in (1, 2, 3, 4, 5):
        op("bset_scalar_w%d_%dd" % (W, D), "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % D, D,
           [("field", "s", "inout")], [("fixed_val", "r")], r_bset(W),
           {"field_type": "scalar", "width": W}, fixable=False)
        op("bset_vector_w%d_%dd" % (W, D), "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % D, D,
           [("vector_field", "v", "inout")], [("fixed_vals", "v")], r_bsetv(W),
           {"field_type": "vector", "width": W}, fixable=False)


# ------------------------------------------------------------------------- advection
def face_flux(g, v, ax):
    """Upwinded third-order face values of g along ax for faces 1+1/2 .. n-3+1/2.

    Returns (flux, scale, tie) with tie > 0 where the mean face velocity is zero:
    there either one-sided value is an upwind value.
    """
    g = np.moveaxis(g, ax, 0)
    v = np.moveaxis(v, ax, 0)
    n = g.shape[0]
    up = g[2:n - 1] / 3 + 5 * g[1:n - 2] / 6 - g[0:n - 3] / 6
    dn = g[1:n - 2] / 3 + 5 * g[2:n - 1] / 6 - g[3:n] / 6
    ag = np.abs(g)
    s = ag[0:n - 3] + ag[1:n - 2] + ag[2:n - 1] + ag[3:n]
    vs = v[1:n - 2] + v[2:n - 1]
    F = np.where(vs > 0, up, dn)
    tie = np.where(vs == 0, np.abs(up - dn), 0.0)
    return F, s, tie


def adv_div(field, velocity):
    """Divergence of the upwinded flux on the cells two away from every face."""
    D = field.ndim
    out = np.zeros(field.shape)
    sc = np.zeros(field.shape)
    tie = np.zeros(field.shape)
    ii = inner(field.shape, 2)
    for comp in range(D):
        ax = X(D, comp)
        F, s, t = face_flux(field * velocity[comp], velocity[comp], ax)
        n = field.shape[ax]
        trans = [slice(2, m - 2) for i, m in enumerate(field.shape) if i != ax]
        for arr, q in ((out, F[1:] - F[:-1]), (sc, s[1:] + s[:-1]), (tie, t[1:] + t[:-1])):
            q = q[tuple([slice(0, n - 4)] + trans)]
            arr[ii] += np.moveaxis(q, 0, ax)
    return out, sc, tie


def r_advflux(a):
    dv, s, tie = adv_div(a["field"], a["velocity"])
    k = a["inv_dx"]
    e = a["advection_flux"] + k * dv
    sc = np.abs(k) * s
    sc[inner(e.shape, 2)] += np.abs(a["advection_flux"])[inner(e.shape, 2)]
    return {"advection_flux": (e, sc, np.abs(k) * tie)}


def r_advstep(a):
    dv, s, tie = adv_div(a["field"], a["velocity"])
    k = a["dt_by_dx"]
    e = a["field"] - k * dv
    sc = np.abs(k) * s
    sc[inner(e.shape, 2)] += np.abs(a["field"])[inner(e.shape, 2)]
    return {"field": (e, sc, np.abs(k) * tie), "advection_flux": None}


def r_advstepv(a):
    es, ss, ts = [], [], []
    for c in range(3):
        r = r_advstep({"field": a["vector_field"][c], "velocity": a["velocity"],
                       "dt_by_dx": a["dt_by_dx"]})["field"]
        es.append(r[0]); ss.append(r[1]); ts.append(r[2])
    return {"vector_field": (np.array(es), np.array(ss), np.array(ts)), "advection_flux": None}


for D in (2, 3):
    op("advflux_%dd" % D, "gen_advection_flux_conservative_eno3_pyst_kernel_%dd" % D, D,
       [("advection_flux", "s", "inout"), ("field", "s", "in"), ("velocity", "v", "in")],
       [("inv_dx", "r")], r_advflux, rad=2)
op("advstep_2d", "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_2d", 2,
   [("field", "s", "inout"), ("advection_flux", "s", "buf"), ("velocity", "v", "in")],
   [("dt_by_dx", "r")], r_advstep, rad=2)
op("advstep_scalar_3d", "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_3d", 3,
   [("field", "s", "inout"), ("advection_flux", "s", "buf"), ("velocity", "v", "in")],
   [("dt_by_dx", "r")], r_advstep, {"field_type": "scalar"}, rad=2)
op("advstep_vector_3d", "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel_3d", 3,
   [("vector_field", "v", "inout"), ("advection_flux", "s", "buf"), ("velocity", "v", "in")],
   [("dt_by_dx", "r")], r_advstepv, {"field_type": "vector"}, rad=2)


# ------------------------------------------------------------------------- diffusion
def lap(f):
    """Sum of neighbours minus 2*dim*centre on the inner cells."""
    D = f.ndim
    c = win(f, 1)
    e = -2 * D * c
    s = 2 * D * np.abs(c)
    for ax in range(D):
        for o in (1, -1):
            q = win(f, 1, ax, o)
            e = e + q
            s = s + np.abs(q)
    return e, s


def diff(out0, f, k, reset):
    e, s = keep(out0)
    l, ls = lap(f)
    if reset:
        e[...] = 0.0
    e[inner(f.shape, 1)] = k * l
    s[inner(f.shape, 1)] = np.abs(k) * ls
    return e, s


def r_diff(reset):
    def ref(a):
        return {"diffusion_flux": diff(a["diffusion_flux"], a["field"], a["prefactor"], reset)}
    return ref


def r_diffv(reset):
    def ref(a):
        r = [diff(a["vector_field_diffusion_flux"][c], a["vector_field"][c], a["prefactor"], reset)
             for c in range(3)]
        return {"vector_field_diffusion_flux": (np.array([x[0] for x in r]), np.array([x[1] for x in r]))}
    return ref


def diffstep(f, k):
    e, s = keep(f)
    l, ls = lap(f)
    e[inner(f.shape, 1)] += k * l
    s[inner(f.shape, 1)] = np.abs(win(f, 1)) + np.abs(k) * ls
    return e, s


def r_diffstep(a):
    return {"field": diffstep(a["field"], a["nu_dt_by_dx2"]), "diffusion_flux": None}


def r_diffstepv(a):
    r = [diffstep(a["vector_field"][c], a["nu_dt_by_dx2"]) for c in range(3)]
    return {"vector_field": (np.array([x[0] for x in r]), np.array([x[1] for x in r])),
            "diffusion_flux": None}


for D in (2, 3):
    for reset in (True, False):
        tag = "reset" if reset else "noreset"
        cfg = {"reset_ghost_zone": reset}
        if D == 3:
            cfg["field_type"] = "scalar"
        op("diff_%s_%dd" % (tag, D), "gen_diffusion_flux_pyst_kernel_%dd" % D, D,
           [("diffusion_flux", "s", "inout"), ("field", "s", "in")], [("prefactor", "r")],
           r_diff(reset), cfg, rad=1)
        if D == 3:
            op("diffv_%s_3d" % tag, "gen_diffusion_flux_pyst_kernel_3d", 3,
               [("vector_field_diffusion_flux", "v", "inout"), ("vector_field", "v", "in")],
               [("prefactor", "r")], r_diffv(reset),
               {"reset_ghost_zone": reset, "field_type": "vector"}, rad=1)
op("diffstep_2d", "gen_diffusion_timestep_euler_forward_pyst_kernel_2d", 2,
   [("field", "s", "inout"), ("diffusion_flux", "s", "buf")], [("nu_dt_by_dx2", "r")],
   r_diffstep, rad=1)
op("diffstep_scalar_3d", "gen_diffusion_timestep_euler_forward_pyst_kernel_3d", 3,
   [("field", "s", "inout"), ("diffusion_flux", "s", "buf")], [("nu_dt_by_dx2", "r")],
   r_diffstep, {"field_type": "scalar"}, rad=1)
op("diffstep_vector_3d", "gen_diffusion_timestep_euler_forward_pyst_kernel_3d", 3,
   [("vector_field", "v", "inout"), ("diffusion_flux", "s", "buf")], [("nu_dt_by_dx2", "r")],
   r_diffstepv, {"field_type": "vector"}, rad=1)


# ------------------------------------------------------------------------------ curls
def curl2_in(v):
    a, sa = cd(v[1], 0)
    b, sb = cd(v[0], 1)
    return a - b, sa + sb


def curl3(v):
    out, sc = [], []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        p, sp_ = cd(v[k], j)
        q, sq = cd(v[j], k)
        out.append(p - q)
        sc.append(sp_ + sq)
    return out, sc


def fill(prev, inner_vals, inner_scale, reset):
    e, s = keep(prev)
    if reset:
        e[...] = 0.0
    e[inner(e.shape, 1)] = inner_vals
    s[inner(e.shape, 1)] = inner_scale
    return e, s


def r_incurl(a):
    c, s = curl2_in(a["field"])
    k = a["prefactor"]
    return {"curl": fill(a["curl"], k * c, np.abs(k) * s, False)}


def r_outcurl(reset):
    def ref(a):
        k = a["prefactor"]
        dx_, sx = cd(a["field"], 0)
        dy_, sy = cd(a["field"], 1)
        p = fill(a["curl"][0], k * dy_, np.abs(k) * sy, reset)
        q = fill(a["curl"][1], -k * dx_, np.abs(k) * sx, reset)
        return {"curl": (np.array([p[0], q[0]]), np.array([p[1], q[1]]))}
    return ref


def r_curl3(reset):
    def ref(a):
        k = a["prefactor"]
        c, s = curl3(a["field"])
        r = [fill(a["curl"][i], k * c[i], np.abs(k) * s[i], reset) for i in range(3)]
        return {"curl": (np.array([x[0] for x in r]), np.array([x[1] for x in r]))}
    return ref


def r_div3(reset):
    def ref(a):
        k = 0.5 * a["inv_dx"]
        e, s = 0.0, 0.0
        for c in range(3):
            p, q = cd(a["field"][c], c)
            e = e + p
            s = s + q
        return {"divergence": fill(a["divergence"], k * e, np.abs(k) * s, reset)}
    return ref


op("incurl_2d", "gen_inplane_field_curl_pyst_kernel_2d", 2,
   [("curl", "s", "inout"), ("field", "v", "in")], [("prefactor", "r")], r_incurl, rad=1)
for reset in (True, False):
    tag = "reset" if reset else "noreset"
    op("outcurl_%s_2d" % tag, "gen_outplane_field_curl_pyst_kernel_2d", 2,
       [("curl", "v", "inout"), ("field", "s", "in")], [("prefactor", "r")], r_outcurl(reset),
       {"reset_ghost_zone": reset}, rad=1)
    op("curl_%s_3d" % tag, "gen_curl_pyst_kernel_3d", 3,
       [("curl", "v", "inout"), ("field", "v", "in")], [("prefactor", "r")], r_curl3(reset),
       {"reset_ghost_zone": reset}, rad=1)
    op("div_%s_3d" % tag, "gen_divergence_pyst_kernel_3d", 3,
       [("divergence", "s", "inout"), ("field", "v", "in")], [("inv_dx", "r")], r_div3(reset),
       {"reset_ghost_zone": reset}, rad=1)


# -------------------------------------------------------------------- vorticity update
def vort_update(w, u, k, ua):
    """w += k * curl(u); ua: velocities whose magnitudes bound the rounding."""
    D = u[0].ndim
    e, s = keep(w)
    if D == 2:
        c, _ = curl2_in(u)
        _, cs = curl2_in(ua)
        e[inner(e.shape, 1)] += k * c
        s[inner(e.shape, 1)] = np.abs(win(w, 1)) + np.abs(k) * cs
    else:
        c, _ = curl3(u)
        _, cs = curl3(ua)
        for i in range(3):
            ii = inner(w[i].shape, 1)
            e[i][ii] += k * c[i]
            s[i][ii] = np.abs(win(w[i], 1)) + np.abs(k) * cs[i]
    return e, s


def r_vforce(a):
    u = a["velocity_forcing_field"]
    return {"vorticity_field": vort_update(a["vorticity_field"], u, a["prefactor"], u)}


def r_vpen(a):
    p, u = a["penalised_velocity_field"], a["velocity_field"]
    return {"vorticity_field": vort_update(a["vorticity_field"], p - u, a["prefactor"],
                                           np.abs(p) + np.abs(u))}


for D in (2, 3):
    wk = "s" if D == 2 else "v"
    op("vforce_%dd" % D, "gen_update_vorticity_from_velocity_forcing_pyst_kernel_%dd" % D, D,
       [("vorticity_field", wk, "inout"), ("velocity_forcing_field", "v", "in")],
       [("prefactor", "r")], r_vforce, rad=1)
    op("vpen_%dd" % D, "gen_update_vorticity_from_penalised_velocity_pyst_kernel_%dd" % D, D,
       [("vorticity_field", wk, "inout"), ("penalised_velocity_field", "v", "in"),
        ("velocity_field", "v", "in")],
       [("prefactor", "r")], r_vpen, rad=1)


# ------------------------------------------------------------------------- stretching
def stretch(w, u, k):
    """k * (w . grad2) u on inner cells, zero on the outer ring."""
    e = np.zeros(w.shape)
    s = np.zeros(w.shape)
    ii = inner(w.shape[1:], 1)
    for c in range(3):
        for j in range(3):
            p, q = cd(u[c], j)
            e[c][ii] += k * win(w[j], 1) * p
            s[c][ii] += np.abs(k) * np.abs(win(w[j], 1)) * q
    return e, s


def r_stretch(a):
    return {"vorticity_stretching_flux_field":
            stretch(a["vorticity_field"], a["velocity_field"], a["prefactor"])}


def r_stretch_euler(a):
    w = a["vorticity_field"]
    e, s = stretch(w, a["velocity_field"], a["dt_by_2_dx"])
    s[s > 0] += np.abs(w)[s > 0]
    return {"vorticity_field": (w + e, s), "vorticity_stretching_flux_field": None}


def r_stretch_rk3(a, third=1.0):
    w, u, k = a["vorticity_field"], a["velocity_field"], a["dt_by_2_dx"]
    w1 = w + stretch(w, u, k)[0]
    w2 = 0.75 * w + 0.25 * (w1 + stretch(w1, u, k)[0])
    w3 = w / 3 + 2.0 / 3 * (w2 + stretch(w2, u, third * k)[0])
    # rounding bound: the same recursion on magnitudes (cell-local Jacobian bound)
    au = np.abs(u)
    m = np.abs(w)
    for _ in range(3):
        g = stretch_abs(m, au, abs(k))
        m = m + g
    return {"vorticity_field": (w3, m), "vorticity_stretching_flux_field": None}


def stretch_abs(m, au, k):
    g = np.zeros(m.shape)
    ii = inner(m.shape[1:], 1)
    for c in range(3):
        for j in range(3):
            _, q = cd(au[c], j)
            g[c][ii] += k * win(m[j], 1) * q
    return g


op("stretch_3d", "gen_vorticity_stretching_flux_pyst_kernel_3d", 3,
   [("vorticity_stretching_flux_field", "v", "inout"), ("vorticity_field", "v", "in"),
    ("velocity_field", "v", "in")], [("prefactor", "r")], r_stretch, rad=1)
op("stretch_euler_3d", "gen_vorticity_stretching_timestep_euler_forward_pyst_kernel_3d", 3,
   [("vorticity_field", "v", "inout"), ("velocity_field", "v", "in"),
    ("vorticity_stretching_flux_field", "v", "buf")], [("dt_by_2_dx", "r")], r_stretch_euler, rad=1)
op("stretch_rk3_3d", "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d", 3,
   [("vorticity_field", "v", "inout"), ("velocity_field", "v", "in"),
    ("vorticity_stretching_flux_field", "v", "buf")], [("dt_by_2_dx", "r")], r_stretch_rk3, rad=1,
   cfg={"midstep_buffer_vector_field": None}, tol=64.0)


# -------------------------------------------------------------------------- penalise
def pen(f, chi, lam, tgt):
    den = 1 + lam * chi
    e = (f + lam * chi * tgt) / den
    s = (np.abs(f) + np.abs(lam * chi * tgt)) / np.abs(den)
    return e, s * 2


def r_brink(a):
    return {"penalised_field": pen(a["field"], a["char_field"], a["penalty_factor"], a["penalty_field"])}


def r_brinkv(a):
    return {"penalised_vector_field": pen(a["vector_field"], a["char_field"], a["penalty_factor"],
                                          a["penalty_vector_field"])}


def r_brinkfix(a):
    return {"penalised_field": pen(a["field"], a["char_field"], a["penalty_factor"], a["penalty_val"])}


def r_brinkfixv(a):
    f = a["vector_field"]
    return {"penalised_vector_field": pen(f, a["char_field"], a["penalty_factor"],
                                          bc(a["penalty_val"], f))}


for D in (2, 3):
    op("brink_scalar_%dd" % D, "gen_brinkmann_penalise_pyst_kernel_%dd" % D, D,
       [("penalised_field", "s", "out"), ("field", "s", "in"), ("char_field", "chi", "in"),
        ("penalty_field", "s", "in")], [("penalty_factor", "p")], r_brink, {"field_type": "scalar"},
       alias=[("penalised_field", "field")])
    op("brink_vector_%dd" % D, "gen_brinkmann_penalise_pyst_kernel_%dd" % D, D,
       [("penalised_vector_field", "v", "out"), ("vector_field", "v", "in"),
        ("char_field", "chi", "in"), ("penalty_vector_field", "v", "in")],
       [("penalty_factor", "p")], r_brinkv, {"field_type": "vector"},
       alias=[("penalised_vector_field", "vector_field")])
op("brinkfix_scalar_2d", "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d", 2,
   [("penalised_field", "s", "out"), ("field", "s", "in"), ("char_field", "chi", "in")],
   [("penalty_factor", "p"), ("penalty_val", "r")], r_brinkfix, {"field_type": "scalar"},
   alias=[("penalised_field", "field")])
op("brinkfix_vector_2d", "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d", 2,
   [("penalised_vector_field", "v", "out"), ("vector_field", "v", "in"), ("char_field", "chi", "in")],
   [("penalty_factor", "p"), ("penalty_val", "v")], r_brinkfixv, {"field_type": "vector"},
   alias=[("penalised_vector_field", "vector_field")])


# --------------------------------------------------------------------------- level set
def heaviside(phi, w):
    e = np.where(phi > w, 1.0, 0.0)
    m = np.abs(phi) <= w
    q = np.where(m, phi, 0.0)
    return np.where(m, 0.5 * (1 + q / w + np.sin(np.pi * q / w) / np.pi), e)


def r_char(w):
    def ref(a):
        phi = a["level_set_field"]
        far = np.abs(phi) > 1.001 * w
        return {"char_func_field": (heaviside(phi, w), np.where(far, 0.0, 4.0))}
    return ref


BLENDS = {"a": 0.05, "b": 0.6, "c": 3.0}
for D in (2, 3):
    for t, W in BLENDS.items():
        op("char_%s_%dd" % (t, D),
           "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % D, D,
           [("char_func_field", "s", "out"), ("level_set_field", "s", "in")], [], r_char(W),
           {"blend_width": W})
