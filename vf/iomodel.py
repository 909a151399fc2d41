"""Model-based histories for the IO checks: what every saved file must contain."""
import os
import shutil

NAMES = ["u", "vort", "phi_1", "f", "u_0", "u_1", "Grid", "Scalar", "v.x", "a b", "F" * 40]
GRIDS = ["rod", "body_2", "Rod", "g 1", None, None, None]
FILES = ["a.h5", "b.v2.h5", "plain", "sub.h5/c.h5", "t=0.25", "a_0001.h5", "A.H5", "x.h5.h5", "./dotted.h5"]


# ------------------------------------------------------------------------- generation
def eul_fields(st, oprun, dim, names=NAMES, lo=1, hi=3):
    return st.lists(st.fixed_dictionaries({
        "name": st.sampled_from(names), "kind": st.sampled_from("sv"), "dt": st.sampled_from(["f64", "f32"]),
        "lay": st.sampled_from(["C", "C", "F", "pad", "skip"]), "arr": oprun.arr_specs(st)}),
        min_size=lo, max_size=hi, unique_by=lambda f: f["name"])


def lag_grids(st, oprun, dim, lo=1, hi=3):
    field = st.fixed_dictionaries({
        "name": st.sampled_from(NAMES), "kind": st.sampled_from("sv"), "dt": st.sampled_from(["f64", "f32"]),
        "lay": st.sampled_from(["C", "C", "F", "skip"]), "arr": oprun.arr_specs(st)})
    return st.lists(st.fixed_dictionaries({
        "name": st.sampled_from(GRIDS), "n": st.sampled_from([1, 2, 3, 3, 4, 7, 12, 40, 1200]), "conn": st.booleans(),
        "dt": st.sampled_from(["f64", "f32"]), "arr": oprun.arr_specs(st), "split": st.booleans(),
        "fields": st.lists(field, min_size=0, max_size=3, unique_by=lambda f: f["name"])}),
        min_size=lo, max_size=hi, unique_by=lambda g: g["name"] or object())


def steps(st, oprun, lo=2, hi=6):
    t = st.sampled_from([0.0, 0.125, 1, 3.7, 1e-9, 12345.678901, 0.1, -2.5, 1e22, 100, 0.30000000000000004])
    save = st.fixed_dictionaries({"op": st.just("save"), "file": st.integers(0, len(FILES) - 1), "t": t})
    load = st.fixed_dictionaries({"op": st.just("load"), "file": st.integers(0, 40), "fresh": st.sampled_from([True, True, False]),
                                  "mask": st.integers(0, 2 ** 12), "seed": st.integers(0, 5), "cast": st.booleans(),
                                  "plain": st.booleans(), "again": st.booleans(), "t2": t})
    mut = st.fixed_dictionaries({"op": st.just("mut"), "which": st.integers(0, 40), "arr": oprun.arr_specs(st)})
    add = st.fixed_dictionaries({"op": st.just("add"), "to": st.sampled_from("eelgrr"), "which": st.integers(0, 9),
                                 "field": st.fixed_dictionaries({
                                     "name": st.sampled_from(NAMES + ["late"]), "kind": st.sampled_from("sv"),
                                     "dt": st.sampled_from(["f64", "f32"]), "lay": st.sampled_from(["C", "F", "skip"]),
                                     "arr": oprun.arr_specs(st)})})
    return st.builds(lambda first, rest, last: [first] + rest + [last], save,
                     st.lists(st.one_of(save, load, mut, mut, add), min_size=lo, max_size=hi), load)


def params(st, dim):
    pos = st.sampled_from([0.125, 1.0, 0.1, 1 / 3.0, 0.015625, 1e-3, 2.5e-7, 3e-9, 4e6])
    val = st.sampled_from([0.0, 0.5, -1.25, 0.05, 1 / 3.0, 100.0, 2e-8, -7e-6, 3e7])
    return st.fixed_dictionaries({"origin": st.lists(val, min_size=dim, max_size=dim),
                                  "dx": st.lists(pos, min_size=dim, max_size=dim),
                                  "shape": st.integers(0, 9).flatmap(lambda k: st.lists(st.integers(1, 6), min_size=dim, max_size=dim) if k < 9
                                                           else st.sampled_from([[64, 3], [2, 300], [40, 40]] if dim == 2 else [[2, 3, 40], [17, 1, 12], [12, 20, 3]]))})


# -------------------------------------------------------------------------- execution
def lag_array(spec, fs, dt, lay):
    from vf import util

    return util.laid_out(util.expand(spec, fs, "f8").astype(util.rt(dt)), lay)


def new_io(case):
    from vf import util
    from sopht.utils.IO import IO

    return IO(dim=case["dim"], real_dtype=util.rt(case["io_rt"]))


def define(io, case):
    import numpy as np

    p = case["params"]
    io.define_eulerian_grid(origin=np.array(p["origin"]), dx=np.array(p["dx"]), grid_size=np.array(p["shape"]))


class State:
    """One IO object, its registered arrays, and the model of what they hold."""

    def __init__(self, case, blank=False, eul=None, lag=None, cast=False):
        from vf import util

        self.case, self.blank, self.cast = case, blank, cast
        with util.sut("IO"):
            self.io = new_io(case)
        self.eul, self.lag = {}, []
        self.eul_spec, self.lag_spec = [], []
        self.defined = False
        self.default = 0
        for f in (case.get("eul") or []) if eul is None else eul:
            self.add_eul(f)
        for g in (case.get("lag") or []) if lag is None else lag:
            self.add_grid(g)

    def array(self, f, fs, lay=None):
        dt = {"f32": "f64", "f64": "f32"}[f["dt"]] if self.cast else f["dt"]
        return lag_array({"k": "zero"} if self.blank else f["arr"], fs, dt, lay or f["lay"])

    def add_eul(self, f):
        """Register an Eulerian field, or another array under a name in use."""
        from vf import util

        if not self.defined:
            with util.sut("define_eulerian_grid"):
                define(self.io, self.case)
            self.defined = True
        shape = tuple(self.case["params"]["shape"])
        fs = ((self.case["dim"],) + shape) if f["kind"] == "v" else shape
        a = self.array(f, fs)
        self.eul[f["name"]] = a
        self.eul_spec = [q for q in self.eul_spec if q["name"] != f["name"]] + [f]
        with util.sut("add_as_eulerian_fields_for_io %s %s" % (f["name"], fs)):
            self.io.add_as_eulerian_fields_for_io(**{f["name"]: a})

    def lag_field(self, g, f):
        dim = self.case["dim"]
        return self.array(f, (dim, g["n"]) if f["kind"] == "v" else (g["n"],))

    def add_grid(self, g):
        from vf import util

        g = dict(g, fields=list(g["fields"]))
        name = g["name"]
        if name is None:
            name = "Lagrangian_grid_%d" % self.default
            self.default += 1
        grid = self.array(g, (self.case["dim"], g["n"]), "C")
        fields = {f["name"]: self.lag_field(g, f) for f in g["fields"]}
        calls = [fields]
        if g["split"] and g["name"] is not None:  # several calls naming the same grid
            calls = [{k: v} for k, v in fields.items()] or [{}]
        for part in calls:
            with util.sut("add_as_lagrangian_fields_for_io grid %s fields %s" % (name, sorted(part))):
                self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=grid, lagrangian_grid_name=g["name"],
                                                        lagrangian_grid_connect=g["conn"], **part)
        self.lag.append({"name": name, "grid": grid, "fields": fields, "conn": g["conn"]})
        self.lag_spec.append(g)

    def add_lag_field(self, j, f):
        """Register a field on the j-th (named) grid, or another array under a name in use."""
        from vf import util

        g, m = self.lag_spec[j], self.lag[j]
        a = self.lag_field(g, f)
        m["fields"][f["name"]] = a
        g["fields"] = [q for q in g["fields"] if q["name"] != f["name"]] + [f]
        with util.sut("add_as_lagrangian_fields_for_io grid %s field %s" % (m["name"], f["name"])):
            self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=m["grid"], lagrangian_grid_name=m["name"],
                                                    lagrangian_grid_connect=g["conn"], **{f["name"]: a})

    def replace_grid(self, j, spec, dt, f=None):
        """Register another array under the name of the j-th grid, with or without a field."""
        from vf import util

        g, m = self.lag_spec[j], self.lag[j]
        g["dt"], g["arr"] = dt, spec
        m["grid"] = self.array(g, (self.case["dim"], g["n"]), "C")
        new = {}
        if f is not None:
            new = {f["name"]: self.lag_field(g, f)}
            m["fields"].update(new)
            g["fields"] = [q for q in g["fields"] if q["name"] != f["name"]] + [f]
        with util.sut("add_as_lagrangian_fields_for_io: another array for grid %s" % m["name"]):
            self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=m["grid"], lagrangian_grid_name=m["name"],
                                                    lagrangian_grid_connect=g["conn"], **new)

    def layout(self):
        """What is registered: names, kinds and sizes."""
        return (sorted((f["name"], f["kind"]) for f in self.eul_spec),
                sorted((m["name"], g["n"], sorted((f["name"], f["kind"]) for f in g["fields"]))
                       for g, m in zip(self.lag_spec, self.lag)))

    def connected(self, h5name, what):
        """Each connected grid of the saved file lists its own points in order, an unconnected one has no list."""
        import h5py
        import numpy as np
        from vf import util

        with h5py.File(h5name, "r") as f:
            for g in self.lag:
                path = "Lagrangian/%s/Connection" % g["name"]
                util.require((path in f) == g["conn"], "%s: grid %s is %sconnected" % (what, g["name"], "not " if g["conn"] else ""))
                if g["conn"]:
                    util.same(f[path][...].reshape(-1), np.arange(g["grid"].shape[1]), "%s: connection of grid %s" % (what, g["name"]))

    def spec(self):
        import copy

        return copy.deepcopy(self.eul_spec), copy.deepcopy(self.lag_spec), self.layout()

    def snapshot(self):
        import numpy as np

        return {"eul": {k: np.array(v, copy=True) for k, v in self.eul.items()},
                "lag": {g["name"]: {"grid": g["grid"].copy(), "conn": g["conn"],
                                    "fields": {k: np.array(v, copy=True) for k, v in g["fields"].items()}}
                        for g in self.lag}}

    def arrays(self):
        out = list(self.eul.values())
        for g in self.lag:
            out.append(g["grid"])
            out.extend(g["fields"].values())
        return out

    def check(self, snap, what):
        """Every registered array holds what the file was given (up to the cast to its own type)."""
        from vf import util

        for k, v in self.eul.items():
            util.same(v, snap["eul"][k].astype(v.dtype), "%s: Eulerian field %s" % (what, k))
        for g in self.lag:
            s = snap["lag"][g["name"]]
            util.same(g["grid"], s["grid"].astype(g["grid"].dtype), "%s: Lagrangian grid %s" % (what, g["name"]))
            for k, v in g["fields"].items():
                util.same(v, s["fields"][k].astype(v.dtype), "%s: field %s on grid %s" % (what, k, g["name"]))


class Workdir:
    def __enter__(self):
        from vf import util

        self.old = os.getcwd()
        self.d = os.path.join(util.scratch(), "io")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(os.path.join(self.d, "sub.h5"))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def history(case, after_save=None):
    """Run save/load/mutate steps against the model; returns statistics."""
    import random

    import numpy as np
    from vf import util

    files = {}
    loads = 0
    classes = set()
    with Workdir():
        st = State(case)
        for i, s in enumerate(case["steps"]):
            if s["op"] == "mut":
                arrs = st.arrays()
                a = arrs[s["which"] % len(arrs)]
                a[...] = util.expand(s["arr"], a.shape, a.dtype)
            elif s["op"] == "add":
                f = s["field"]
                if s["to"] == "e" and (case.get("eul") or s["which"] % 2):
                    st.add_eul(f)
                    classes.add("registered after a save")
                elif s["to"] == "g" and case.get("lag"):
                    name = "late_grid" if s["which"] % 2 else None
                    if name not in [g["name"] for g in st.lag]:
                        st.add_grid({"name": name, "n": 1 + s["which"], "conn": bool(s["which"] & 2), "dt": f["dt"],
                                     "arr": f["arr"], "split": False, "fields": [f]})
                        classes.add("registered after a save")
                elif s["to"] == "r" and st.lag:
                    # default-named grids are named in the order of registration, and can be named too
                    st.replace_grid(s["which"] % len(st.lag), f["arr"], f["dt"], f if s["which"] % 2 else None)
                    classes.add("grid replaced")
                elif s["to"] == "l":
                    named = [j for j, g in enumerate(st.lag_spec) if g["name"] is not None]
                    if named:
                        st.add_lag_field(named[s["which"] % len(named)], f)
                        classes.add("registered after a save")
            elif s["op"] == "save":
                name = FILES[s["file"]]
                snap = st.snapshot()
                ctx = "step %d save %s" % (i, name)
                with util.sut(ctx):
                    st.io.save(h5_file_name=name, time=s["t"])
                st.check(snap, ctx + " changed the data it saved")
                files[name] = (snap, s["t"], st.spec())
                st.connected(name, ctx)
                if after_save:
                    after_save(case, st, name, s["t"], ctx)
            else:
                name = sorted(files)[s["file"] % len(files)]
                snap, t, (eul_spec, lag_spec, layout) = files[name]
                ctx = "step %d load %s" % (i, name)
                if s["fresh"] or layout != st.layout():
                    rng = random.Random(s["seed"])
                    eul = [f for j, f in enumerate(eul_spec) if not (s["mask"] >> j) & 1]
                    rng.shuffle(eul)
                    lag = []
                    for j, g in enumerate(lag_spec):
                        g = dict(g)
                        if g["name"] is not None and (s["mask"] >> (5 + j)) & 1:
                            continue
                        g["fields"] = [f for k, f in enumerate(g["fields"]) if not (s["mask"] >> (8 + k)) & 1]
                        rng.shuffle(g["fields"])
                        lag.append(g)
                    if rng.random() < 0.5:
                        named = [g for g in lag if g["name"] is not None]
                        rest = [g for g in lag if g["name"] is None]
                        lag = rest + named[::-1]  # default names are given in order of registration
                    if s.get("plain"):
                        lag = [dict(g, conn=False) for g in lag]
                    other = State(case, blank=True, eul=eul, lag=lag, cast=s["cast"])
                    if s["cast"]:
                        classes.add("other precision")
                else:
                    other = st
                with util.sut(ctx):
                    got = other.io.load(h5_file_name=name)
                other.check(snap, ctx)
                util.require(float(got) == float(t), "%s: time %r, saved %r" % (ctx, got, t))
                for g in other.lag:  # a connection in the file is taken over
                    g["conn"] = g["conn"] or snap["lag"][g["name"]]["conn"]
                if other is st:
                    classes.add("loaded in place")
                elif s.get("again"):
                    ctx += " and save again"
                    again = other.snapshot()
                    with util.sut(ctx):
                        other.io.save(h5_file_name="again.h5", time=s.get("t2", t))
                    other.check(again, ctx)
                    other.connected("again.h5", ctx)
                    if after_save:
                        after_save(case, other, "again.h5", s.get("t2", t), ctx)
                    third = State(case, blank=True, eul=other.eul_spec, lag=other.lag_spec, cast=s["cast"])
                    with util.sut(ctx + " and load"):
                        got = third.io.load(h5_file_name="again.h5")
                    third.check(again, ctx + " and load")
                    util.require(float(got) == float(s.get("t2", t)), "%s: time %r" % (ctx, got))
                    classes.add("saved again after loading")
                loads += 1
    classes.update(["%dd" % case["dim"], case["io_rt"], "saves %d" % min(3, sum(s["op"] == "save" for s in case["steps"]))])
    if case.get("eul"):
        classes.update("eulerian " + {"s": "scalar", "v": "vector"}[f["kind"]] for f in case["eul"])
    if case.get("lag"):
        classes.add("lagrangian grids %d" % len(case["lag"]))
        names = [f["name"] for g in case["lag"] for f in g["fields"]]
        if len(set(names)) < len(names):
            classes.add("same field name on two grids")
        if any(g["n"] == case["dim"] for g in case["lag"]):
            classes.add("dim points")
        if any(g["split"] and g["name"] and len(g["fields"]) > 1 for g in case["lag"]):
            classes.add("fields added in several calls")
    return loads, sorted(classes)
