"""C21: interpolation weights form the regularised delta function around each node."""

COUNTS = {"quick": 250, "thorough": 3000}
RULE = ("communicators per case: 2D/3D x grid shape x spacing x coordinate shift x precision x kernel (cosine/Peskin) x 1-16 "
        "node positions (random, on grid points, half way, one ulp-scale step beside a grid point, coincident). Checked: the "
        "cell below the node, the offsets, each weight against an independent formula, non-negativity, sum, Peskin's first "
        "moment and even/odd balance. Also refusal of unusable widths, component counts and kernel names. Non-trivial: the "
        "nodes are not all on grid points.")
ASSUMPTIONS = ["nodes keep two cells' distance from the grid boundary, as the code's TODO requires",
               "numba is not installed: the numba-decorated functions run as plain Python"]


def strategy(st, shard, shards, tier):
    from vf import ibm

    return st.fixed_dictionaries({"c": ibm.setup(st), "reject": st.integers(0, 30)})


def run(case):
    import numpy as np
    from vf import ibm, util
    import sopht.numeric.immersed_boundary_ops as ib

    c = case["c"]
    dim = c["dim"]
    comm = ibm.communicator(c, 1)
    real_t = util.rt(c["rt"])
    dx = float(real_t(c["dx"]))
    shift = float(real_t(c["shift"] * dx))
    for rep in range(2):
        x = ibm.nodes(c, rep)
        keep = x.copy()
        near, offs, w = ibm.weights(c, comm, x)
        util.same(x, keep, "node positions modified")
        full, err = ibm.delta(c, x)
        X = util.d(x)
        r = (X - shift) / dx
        tol_r = util.eps(c["rt"]) * 8 * (np.abs(X).max() / dx + abs(c["shift"]) + 8)
        util.require(bool(((near <= r + tol_r) & (r < near + 1 + tol_r)).all()),
                     "cell below the node: node at cell coordinate %s, got index %s" % (r.tolist(), near.tolist()))
        cells = np.arange(-1, 3)
        for i in range(c["n"]):
            grid = np.meshgrid(*([cells] * dim), indexing="ij")
            for d in range(dim):
                want = (near[d, i] + grid[dim - 1 - d]) * dx + shift - X[d, i]
                util.close(offs[d, ..., i], want, tol_r * dx, "offsets of the support cells along coordinate %d" % d)
            sl = tuple(slice(near[d, i] - 1, near[d, i] + 3) for d in range(dim - 1, -1, -1))
            util.close(w[..., i], full[i][sl], err, "weights of node %d" % i)
            util.require(bool((w[..., i] >= -err).all()), "negative weight")
            total = util.d(w[..., i]).sum() * dx ** dim
            stol = err * dx ** dim * 4 ** dim
            util.close(np.array([total]), [1.0], stol, "sum of the weights of node %d times the cell volume" % i)
            if c["kern"] == "peskin":
                for d in range(dim):
                    m = (util.d(w[..., i]) * util.d(offs[d, ..., i])).sum() * dx ** dim / dx
                    util.close(np.array([m]), [0.0], 3 * stol, "first moment of the weights along coordinate %d" % d)
                    even = util.d(np.moveaxis(w[..., i], dim - 1 - d, 0))[::2].sum() * dx ** dim
                    util.close(np.array([even]), [0.5], stol, "even cells carry half of the weight along coordinate %d" % d)
    cl = ibm.classes(c)
    if case["reject"] < 6:
        reject(case["reject"], c, ib, real_t)
        cl.append("refusals")
    return {"nontrivial": bool((np.abs(r - np.round(r)) > 1e-3).any()), "classes": cl}


def reject(k, c, ib, real_t):
    from vf import util

    cls = ib.EulerianLagrangianGridCommunicator2D if c["dim"] == 2 else ib.EulerianLagrangianGridCommunicator3D
    kw = dict(dx=real_t(0.1), eul_grid_coord_shift=real_t(0.05), num_lag_nodes=3, interp_kernel_width=2, real_t=real_t,
              n_components=c["dim"], interp_kernel_type=c["kern"])
    kw.update([{"interp_kernel_width": 1}, {"interp_kernel_width": 3}, {"n_components": 5 - c["dim"]}, {"n_components": 0},
               {"interp_kernel_type": "gaussian"}, {"interp_kernel_type": "Cosine"}][k])
    util.expect_raises((AssertionError, ValueError), "%s(%s)" % (cls.__name__, kw), cls, **kw)
