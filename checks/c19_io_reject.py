"""C19: a restart that does not match the file is refused, a matching one is accepted."""

COUNTS = {"quick": 130, "thorough": 2000}
RULE = ("one saved file (Eulerian and Lagrangian, as C17/C18) and a restart that differs in exactly one way: origin, spacing "
        "or grid size in one axis, a missing scalar or vector field, a field of the other kind, a missing grid, a missing "
        "field on a grid, another number of points (also from or to a single point) - or in no way beyond rounding. Oracle: the "
        "mismatch raises, the match loads. Also registrations of unusable shapes. Non-trivial: every case.")
ASSUMPTIONS = ["differences below a relative 1e-9 are rounding, above 1e-5 they are differences; between them nothing is claimed"]

KINDS = ["origin", "dx", "size", "missing_s", "missing_v", "kind_sv", "kind_vs", "lag_grid", "lag_field", "lag_kind", "lag_n",
         "lag_n1", "none", "none", "reg"]


def strategy(st, shard, shards, tier):
    from vf import iomodel, oprun

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([2, 3]))
        lag = draw(iomodel.lag_grids(st, oprun, dim, 1, 2))
        for g in lag:
            g["n"] = min(g["n"], 12)
        return {"dim": dim, "io_rt": draw(st.sampled_from(["f64", "f32"])), "params": draw(iomodel.params(st, dim)),
                "eul": draw(iomodel.eul_fields(st, oprun, dim)), "lag": lag,
                "how": draw(st.sampled_from(KINDS)), "axis": draw(st.integers(0, dim - 1)),
                "pick": draw(st.integers(0, 20)), "rel": draw(st.sampled_from([2e-5, 1e-3, -2e-3, 1e-2, -0.5, 1.0, 3.0])),
                "n2": draw(st.integers(1, 13))}

    return case()


def refused(fn, what):
    from vf import util

    try:
        fn()
    except Exception:
        return
    raise util.CheckFailure(what + ": accepted")


def run(case):
    import copy

    import numpy as np
    from vf import iomodel, util
    from sopht.utils.IO import IO

    how = case["how"]
    classes = [how, "%dd" % case["dim"]]
    if how == "reg":
        return registration(case, classes)
    with iomodel.Workdir():
        a = iomodel.State(case)
        with util.sut("save"):
            a.io.save(h5_file_name="x.h5", time=0.5)
        snap = a.snapshot()
        other = copy.deepcopy(case)
        p = other["params"]
        ax = case["axis"]
        eul = other["eul"]
        pick = case["pick"]
        grid = other["lag"][pick % len(other["lag"])]
        new_field = {"name": "fresh", "dt": "f64", "lay": "C", "arr": {"k": "zero"}, "kind": "s"}
        if how == "origin":
            p["origin"][ax] += case["rel"] * (abs(p["origin"][ax]) or 1.0)
        elif how == "dx":
            p["dx"][ax] *= 1 + abs(case["rel"])
        elif how == "size":
            p["shape"][ax] += 1 + pick % 2
        elif how == "missing_s":
            eul.append(new_field)
        elif how == "missing_v":
            eul.append(dict(new_field, kind="v"))
        elif how == "kind_sv":
            for f in eul:
                f["kind"] = "v" if f["kind"] == "s" else "s"
        elif how == "kind_vs":
            f = eul[pick % len(eul)]
            f["kind"] = "v" if f["kind"] == "s" else "s"
        elif how == "lag_grid":
            grid = dict(grid, name="unheard_of")
            other["lag"].append(grid)
        elif how == "lag_field":
            grid["fields"].append(new_field if pick % 2 else dict(new_field, kind="v"))
        elif how == "lag_kind":
            if not grid["fields"]:
                return {"nontrivial": False, "classes": ["skipped"]}
            f = grid["fields"][pick % len(grid["fields"])]
            f["kind"] = "v" if f["kind"] == "s" else "s"
        elif how in ("lag_n", "lag_n1"):
            n2 = case["n2"]
            if how == "lag_n1":
                # a file with one point, read into more
                if grid["n"] != 1:
                    return {"nontrivial": False, "classes": ["skipped"]}
                n2 = case["n2"] + 1
            if n2 == grid["n"]:
                n2 += 1
            grid["n"] = n2
        elif how == "none":
            p["origin"] = [x * (1 + 1e-10) for x in p["origin"]]
            p["dx"] = [x * (1 - 1e-10) for x in p["dx"]]
        b = iomodel.State(other, blank=True)
        what = "restart differing in %s" % how
        if how == "none":
            with util.sut("a matching restart"):
                t = b.io.load(h5_file_name="x.h5")
            b.check(snap, "matching restart")
            util.require(t == 0.5, "matching restart: time %r" % t)
        else:
            refused(lambda: b.io.load(h5_file_name="x.h5"), what)
            # the file itself survives a refused restart
            c = iomodel.State(case, blank=True)
            with util.sut("loading after a refused restart"):
                c.io.load(h5_file_name="x.h5")
            c.check(snap, "loading after a refused restart")
        # fields registered without defining their grid in the file
        if case["pick"] % 4 == 0 and how == "none":
            e = iomodel.State(dict(case, eul=[]))
            with util.sut("save"):
                e.io.save(h5_file_name="y.h5", time=1.0)
            b2 = iomodel.State(case, blank=True)
            refused(lambda: b2.io.load(h5_file_name="y.h5"), "restart from a file without Eulerian data")
            refused(lambda: b2.io.load(h5_file_name="absent.h5"), "restart from an absent file")
    return {"nontrivial": True, "classes": classes}


def registration(case, classes):
    import numpy as np
    from vf import iomodel, util
    from sopht.utils.IO import IO

    dim = case["dim"]
    shape = list(case["params"]["shape"])
    pick = case["pick"]
    err = (AssertionError, ValueError)
    util.expect_raises(err, "IO(dim=%d)" % (pick % 2 * 3 + 1), IO, dim=pick % 2 * 3 + 1)
    io = iomodel.new_io(case)
    util.expect_raises(err, "Eulerian field before the grid is defined", io.add_as_eulerian_fields_for_io, u=np.zeros(shape))
    for bad in range(3):
        kw = dict(origin=np.zeros(dim), dx=np.ones(dim), grid_size=np.array(shape))
        key = ["origin", "dx", "grid_size"][bad]
        kw[key] = list(kw[key])
        util.expect_raises(err + (TypeError,), "define_eulerian_grid with a list as %s" % key, iomodel.new_io(case).define_eulerian_grid, **kw)
    with util.sut("define_eulerian_grid"):
        iomodel.define(io, case)
    wrong = list(shape)
    wrong[case["axis"]] += 1
    bad_shapes = [tuple(wrong), (dim,) + tuple(wrong), (dim + 1,) + tuple(shape), (dim - 1,) + tuple(shape), tuple(shape) + (dim,) if shape != [dim] * dim else (dim + 2,) + tuple(shape),
                  tuple(shape[:-1]), (dim, 1) + tuple(shape)]
    good = {tuple(shape), (dim,) + tuple(shape)}
    s = bad_shapes[pick % len(bad_shapes)]
    if s not in good:
        util.expect_raises(err, "Eulerian field of shape %s on a %s grid" % (s, shape), io.add_as_eulerian_fields_for_io, u=np.zeros(s))
    n = case["n2"]
    for bad in ((dim + 1, n), (n,), (dim, n, 1), (5 - dim, n)):
        util.expect_raises(err + (IndexError,), "Lagrangian grid of shape %s in %dd" % (bad, dim), iomodel.new_io(case).add_as_lagrangian_fields_for_io,
                           lagrangian_grid=np.zeros(bad))
    for bad in ((n + 1,), (dim, n + 1), (dim + 1, n), (dim + 2, n + 1)):
        if bad[0] == n:
            continue
        util.expect_raises(err, "Lagrangian field of shape %s on %d points in %dd" % (bad, n, dim), iomodel.new_io(case).add_as_lagrangian_fields_for_io,
                           lagrangian_grid=np.zeros((dim, n)), q=np.zeros(bad))
    return {"nontrivial": True, "classes": classes}
