"""Immersed boundary cases: generation, and a reference that sums over the whole grid."""


# ------------------------------------------------------------------------- generation
def setup(st, tier="quick"):
    @st.composite
    def s(draw):
        dim = draw(st.sampled_from([2, 2, 3]))
        hi = 18 if dim == 2 else 9
        shape = draw(st.lists(st.integers(6, hi), min_size=dim, max_size=dim))
        if draw(st.integers(0, 7)) == 0:  # one long axis
            shape[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([33, 64] if dim == 2 else [17, 24]))
        return {"dim": dim, "shape": shape,
                "dx": draw(st.sampled_from([1.0, 0.1, 0.03125, 0.37, 2.5, 1e-3, 60.0])), "shift": draw(st.sampled_from([0.5, 0.5, 0.0, -1.25, 3.0])),
                "rt": draw(st.sampled_from(["f64", "f64", "f32"])), "kern": draw(st.sampled_from(["cosine", "peskin"])),
                "n": draw(st.sampled_from([1, 1, 2, 3, 5, 16, 37, 130, 400])), "pos": draw(positions(st))}

    return s()


def positions(st):
    """Per-coordinate fractions of the admissible range, and how to round them to cells."""
    frac = st.floats(0, 1, allow_nan=False, width=32)
    off = st.sampled_from([None, None, None, 0.0, 0.5, 1e-7, 1 - 1e-7, 0.25])
    return st.fixed_dictionaries({
        "pts": st.lists(st.tuples(frac, frac, frac, off), min_size=1, max_size=6),
        "rep": st.sampled_from(["cycle", "jitter", "same"]), "seed": st.integers(0, 1000)})


def nodes(c, which=0):
    """Positions (dim, n) whose 4-cell support lies inside the grid, in units of the Eulerian coordinates."""
    import numpy as np
    from vf import util

    dim, n = c["dim"], c["n"]
    p = c["pos"]
    rng = np.random.RandomState(p["seed"] + 31 * which)
    out = np.zeros((dim, n))
    for i in range(n):
        q = p["pts"][(i + which) % len(p["pts"])]
        for d in range(dim):
            m = c["shape"][dim - 1 - d]  # coordinate 0 is x, the last axis
            lo, hi = 1.0 + 1e-3, m - 2 - 1e-3  # the cell at or below the node is 1 .. m - 3
            f = q[d]
            if p["rep"] == "jitter" and i >= len(p["pts"]):
                f = rng.uniform()
            elif p["rep"] == "same":
                f = p["pts"][0][d]
            r = lo + f * (hi - lo)
            if q[3] is not None:  # rounding may move these to the neighbouring cell
                r = min(max(np.floor(r), 2), m - 4) + q[3]
            out[d, i] = r
    dx = float(util.rt(c["rt"])(c["dx"]))
    r_cells = out
    x = ((r_cells + c["shift"]) * dx).astype(util.rt(c["rt"]))
    return x


# -------------------------------------------------------------------------- reference
def phi(r, kern):
    import numpy as np

    r = np.abs(r)
    if kern == "cosine":
        return np.where(r < 2, 0.25 * (1 + np.cos(np.pi * r / 2)), 0.0)
    a = (3 - 2 * r + np.sqrt(np.maximum(1 + 4 * r - 4 * r * r, 0))) / 8
    b = (5 - 2 * r - np.sqrt(np.maximum(-7 + 12 * r - 4 * r * r, 0))) / 8
    return np.where(r < 1, a, np.where(r < 2, b, 0.0))


def delta(c, x):
    """delta_h(cell - node) on the whole grid for every node: (n, *shape), and its error bound."""
    import numpy as np
    from vf import util

    real_t = util.rt(c["rt"])
    dx = float(real_t(c["dx"]))
    shift = float(real_t(c["shift"] * dx))
    dim = c["dim"]
    x = util.d(x)
    n = x.shape[1]
    out = np.ones((n,) + tuple(c["shape"]))
    for d in range(dim):
        ax = dim - 1 - d
        m = c["shape"][ax]
        r = (np.arange(m)[None, :] * dx + shift - x[d][:, None]) / dx
        w = phi(r, c["kern"]) / dx
        sh = [n] + [1] * dim
        sh[1 + ax] = m
        out = out * w.reshape(sh)
    # per node; cells a little outside the support may carry an error too
    err = util.eps(c["rt"]) * (np.abs(x).max(initial=0.0) / dx + abs(c["shift"]) + max(c["shape"]) + 16) * 6 * dim / dx ** dim
    return out, err


def communicator(c, comps):
    from vf import util
    import sopht.numeric.immersed_boundary_ops as ib

    real_t = util.rt(c["rt"])
    cls = ib.EulerianLagrangianGridCommunicator2D if c["dim"] == 2 else ib.EulerianLagrangianGridCommunicator3D
    dx = real_t(c["dx"])
    with util.sut(cls.__name__):
        return cls(dx=dx, eul_grid_coord_shift=real_t(c["shift"] * float(dx)), num_lag_nodes=c["n"], interp_kernel_width=2,
                   real_t=real_t, n_components=comps, interp_kernel_type=c["kern"])


def weights(c, comm, x):
    """Run the support and weight kernels: (nearest index, offsets, weights)."""
    import numpy as np
    from vf import util

    real_t = util.rt(c["rt"])
    dim, n = c["dim"], c["n"]
    near = np.full((dim, n), -77, dtype=int)
    sup = np.full((dim,) + (4,) * dim + (n,), 7.5, dtype=real_t)
    w = np.full((4,) * dim + (n,), 7.5, dtype=real_t)
    with util.sut("local support"):
        comm.local_eulerian_grid_support_of_lagrangian_grid_kernel(
            local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=x)
    offs = sup.copy()
    with util.sut("interpolation weights"):
        comm.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=sup)
    return near, offs, w


def classes(c):
    out = ["%dd" % c["dim"], c["rt"], c["kern"], "nodes %s" % ("1" if c["n"] == 1 else "2-5" if c["n"] < 6 else "16-130")]
    if len(set(c["shape"])) > 1:
        out.append("nonsquare")
    if any(p[3] == 0.0 for p in c["pos"]["pts"]):
        out.append("node on a grid point")
    return out
