"""C23: virtual boundary forcing is the damped spring on the accumulated slip, spread without loss."""

COUNTS = {"quick": 160, "thorough": 3000}
RULE = ("histories of 2-8 force evaluations and time steps, on one or two bodies forcing one of two grid arrays (rewritten by the user between evaluations or not), 2D/3D, both precisions, "
        "with and without reset of the grid force, moving nodes and changing flow, repeated evaluations and repeated time steps. "
        "Oracle: a model that keeps the slip integral and the last slip of each body, with the delta function summed over the "
        "whole grid. Non-trivial: at least one time step and one evaluation after it with non-zero slip.")
ASSUMPTIONS = ["as C21; the cosine kernel is the one the forcing class uses"]


def strategy(st, shard, shards, tier):
    from vf import ibm, oprun

    s = oprun.arr_specs(st)
    ev = st.fixed_dictionaries({"op": st.sampled_from(["force", "force", "lag"]), "body": st.integers(0, 1), "u": s, "v": s, "move": st.integers(0, 3),
                                "grid": st.sampled_from([0, 0, 1]), "nan": st.sampled_from([False, False, True]), "refill": st.one_of(st.none(), st.none(), s)})
    ts = st.fixed_dictionaries({"op": st.just("step"), "body": st.integers(0, 1), "dt": st.sampled_from([0.01, 0.1, 0.5, 1e-4, 0.0])})
    return st.fixed_dictionaries({
        "c": ibm.setup(st), "bodies": st.integers(1, 2), "k": st.sampled_from([-1e3, -5.0, 0.0, 2.0]),
        "b": st.sampled_from([-10.0, -0.5, 0.0, 1.0]), "reset": st.booleans(), "nt": st.sampled_from([False, 2]),
        "t0": st.sampled_from([0.0, 0.0, 2.5]), "default_shift": st.booleans(), "base": s,
        "steps": st.lists(st.one_of(ev, ts, ev), min_size=3, max_size=8)})


class Model:
    def __init__(self, dim, n, t0):
        import numpy as np

        self.slip = np.zeros((dim, n))
        self.slip_err = np.zeros((dim, n))
        self.disp = np.zeros((dim, n))
        self.disp_err = np.zeros((dim, n))
        self.t = t0


def run(case):
    import numpy as np
    from vf import ibm, util
    import sopht.numeric.immersed_boundary_ops as ib

    c = dict(case["c"], kern="cosine")
    if case["default_shift"]:
        c["shift"] = 0.5
    dim, n = c["dim"], c["n"]
    real_t = util.rt(c["rt"])
    eps = util.eps(c["rt"])
    dx = float(real_t(c["dx"]))
    shape = tuple(c["shape"])
    kw = dict(virtual_boundary_stiffness_coeff=case["k"], virtual_boundary_damping_coeff=case["b"], grid_dim=dim,
              dx=real_t(c["dx"]), num_lag_nodes=n, real_t=real_t, enable_eul_grid_forcing_reset=case["reset"],
              num_threads=case["nt"])
    if not case["default_shift"]:
        kw["eul_grid_coord_shift"] = real_t(c["shift"] * dx)
        kw["interp_kernel_width"] = 2
    if case["t0"]:
        kw["start_time"] = case["t0"]
    bodies, models = [], []
    for j in range(case["bodies"]):
        with util.sut("VirtualBoundaryForcing"):
            bodies.append(ib.VirtualBoundaryForcing(**kw))
        models.append(Model(dim, n, case["t0"]))
    forces = [util.expand(case["base"], (dim,) + shape, np.float64).astype(real_t) for _ in range(2)]
    nontrivial = False
    stepped = False
    axes = tuple(range(1, dim + 1))
    sc = (1.0 + 0.5 * np.arange(dim)).reshape((-1,) + (1,) * dim)
    for i, s in enumerate(case["steps"]):
        j = s["body"] % case["bodies"]
        body, m = bodies[j], models[j]
        ctx = "step %d (%s, body %d)" % (i, s["op"], j)
        if s["op"] == "step":
            with util.sut(ctx):
                body.time_step(dt=s["dt"])
            m.disp = m.disp + s["dt"] * m.slip
            m.disp_err = m.disp_err + s["dt"] * m.slip_err + 4 * eps * (np.abs(m.disp) + s["dt"] * np.abs(m.slip))
            m.t += s["dt"]
            util.close(body.lag_grid_position_mismatch_field, m.disp, m.disp_err, ctx + ": accumulated slip")
            util.require(abs(body.time - m.t) <= 1e-12 * (1 + abs(m.t)), "%s: time %r, expected %r" % (ctx, body.time, m.t))
            stepped = True
            continue
        x = ibm.nodes(c, s["move"])
        full, err = ibm.delta(c, x)
        u = (util.expand(s["u"], (dim,) + shape, np.float64) * sc).astype(real_t)
        v = (util.expand(s["v"], (dim, n), np.float64)).astype(real_t)
        force = forces[s.get("grid", 0)]
        if case["reset"] and s.get("nan"):
            force[...] = np.nan
        elif s.get("refill"):
            force[...] = util.expand(s["refill"], force.shape, np.float64).astype(real_t)
        other = forces[1 - s.get("grid", 0)].copy()
        before = force.copy()
        keep = util.Unchanged(flow_velocity=u, positions=x, body_velocity=v)
        with util.sut(ctx):
            if s["op"] == "lag":
                body.compute_interaction_force_on_lag_grid(
                    eul_grid_velocity_field=u, lag_grid_position_field=x, lag_grid_velocity_field=v)
            else:
                body.compute_interaction_forcing(
                    eul_grid_forcing_field=force, eul_grid_velocity_field=u, lag_grid_position_field=x,
                    lag_grid_velocity_field=v)
        keep.check(ctx)
        util.same(forces[1 - s.get("grid", 0)], other, ctx + ": a grid force that was not passed")
        U = np.stack([(full * util.d(u[k])[None]).sum(axes) * dx ** dim for k in range(dim)])
        uerr = (err * 4 ** dim * 2 + eps * 4 ** dim / dx ** dim) * dx ** dim * np.abs(util.d(u)).max()
        m.slip = U - util.d(v)
        m.slip_err = uerr + 2 * eps * (np.abs(U) + np.abs(util.d(v)))
        util.close(body.lag_grid_flow_velocity_field, U, uerr, ctx + ": flow velocity at the nodes")
        util.close(body.lag_grid_velocity_mismatch_field, m.slip, m.slip_err, ctx + ": slip")
        util.close(body.lag_grid_position_mismatch_field, m.disp, m.disp_err, ctx + ": accumulated slip")
        F = case["k"] * m.disp + case["b"] * m.slip
        Ferr = abs(case["k"]) * m.disp_err + abs(case["b"]) * m.slip_err + 4 * eps * (abs(case["k"]) * np.abs(m.disp) + abs(case["b"]) * np.abs(m.slip))
        util.close(body.lag_grid_forcing_field, F, Ferr + 1e-300, ctx + ": force at the nodes")
        util.require(abs(body.time - m.t) <= 1e-12 * (1 + abs(m.t)), "%s: time %r, expected %r" % (ctx, body.time, m.t))
        if s["op"] == "lag":
            util.same(force, before, ctx + ": grid force modified")
        else:
            for k in range(dim):
                start = np.zeros(shape) if case["reset"] else util.d(before[k])
                g = F[k].reshape((n,) + (1,) * dim)
                ge = Ferr[k].reshape((n,) + (1,) * dim)
                want = start + (full * g).sum(0)
                tol = (full * ge).sum(0) + err * (np.abs(F[k]) + Ferr[k]).sum() + 4 * eps * (n + 1) * (np.abs(start) + np.abs(F[k]).sum() / dx ** dim)
                util.close(force[k], want, tol + 1e-300, "%s: grid force, component %d" % (ctx, k))
                util.close(np.array([(util.d(force[k]) - start).sum() * dx ** dim]), [F[k].sum()],
                           tol.sum() * dx ** dim + 1e-300, "%s: total force on the grid, component %d" % (ctx, k))
        if stepped and np.abs(m.slip).max() > 0:
            nontrivial = True
    cl = ibm.classes(c) + ["reset" if case["reset"] else "accumulate", "%d bodies" % case["bodies"]]
    return {"nontrivial": nontrivial, "classes": cl}
