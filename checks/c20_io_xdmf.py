"""C20: the XDMF files describe exactly the data that was saved."""

COUNTS = {"quick": 90, "thorough": 1500}
RULE = ("saves in histories as in C17/C18, mixed Eulerian and Lagrangian; after each one, every XDMF file is parsed and each "
        "reference followed into the HDF5 file: same values as the registered array, matching dimensions, one attribute per "
        "scalar field or vector component, origin, spacing, time, topology and geometry. Non-trivial: at least one field.")
ASSUMPTIONS = ["field, grid and file names contain no XML special characters"]


def strategy(st, shard, shards, tier):
    from vf import iomodel, oprun

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([2, 3]))
        which = draw(st.sampled_from(["e", "l", "el"]))
        return {"dim": dim, "io_rt": draw(st.sampled_from(["f64", "f32"])), "params": draw(iomodel.params(st, dim)),
                "eul": draw(iomodel.eul_fields(st, oprun, dim)) if "e" in which else [],
                "lag": draw(iomodel.lag_grids(st, oprun, dim)) if "l" in which else [],
                "steps": draw(iomodel.steps(st, oprun, 0, 2))}

    return case()


def run(case):
    from vf import iomodel, util

    known = {}
    _, classes = iomodel.history(case, lambda *a: describe(known, *a))
    return {"nontrivial": bool(case["eul"] or any(g["fields"] for g in case["lag"])), "classes": classes, "known": known}


def parse(path):
    import xml.etree.ElementTree as ET
    from vf import util

    with open(path) as f:
        text = f.read()
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise util.CheckFailure("%s is not well-formed XML: %s" % (path, e))
    grids = root.findall("./Domain/Grid")
    util.require(len(grids) == 1, "%s: %d grids" % (path, len(grids)))
    return grids[0]


def dims(item):
    return [int(x) for x in item.get("Dimensions").split()]


def follow(item, h5name, xmf, ctx, known, case):
    """The array an HDF data item refers to, checked against its declared dimensions."""
    import os

    import h5py
    import numpy as np
    from vf import util

    util.require(item.get("Format") == "HDF", ctx + ": format %s" % item.get("Format"))
    ref = item.text.strip()
    at = ref.find(":/")
    util.require(at > 0, "%s: refers to %s" % (ctx, ref))
    # a reader resolves the reference from the directory of the XDMF file
    there = os.path.normpath(os.path.join(os.path.dirname(xmf), ref[:at]))
    util.require(there == os.path.normpath(h5name), "%s: refers to %s, not to %s" % (ctx, there, h5name))
    with h5py.File(os.path.join(os.path.dirname(xmf), ref[:at]), "r") as f:
        path = ref[at + 1:]
        util.require(path in f, "%s: %s is not in the file" % (ctx, path))
        a = np.array(f[path][...])
    util.require([n for n in dims(item) if n != 1] == [n for n in a.shape if n != 1],
                 "%s: declared dimensions %s, stored %s" % (ctx, dims(item), a.shape))
    precision(int(item.get("Precision")), [a.dtype.itemsize], ctx, known, case)
    return a


def precision(p, ok, ctx, known, case):
    from vf import util

    if p in ok:
        return
    util.require(p == {"f32": 8, "f64": 16}[case["io_rt"]], "%s: declared precision of %d bytes, stored %s" % (ctx, p, ok))
    known["xdmf-precision"] = "%s: declared precision of %d bytes, stored %s" % (ctx, p, ok)


def describe(known, case, st, h5name, t, ctx):
    import os

    import numpy as np
    from vf import util

    dim = case["dim"]
    stem = h5name[:-3] if h5name.endswith(".h5") else h5name
    for which in (["eulerian"] if st.eul else []):
        path = "%s_%s.xmf" % (stem, which)
        c = ctx + " " + path
        util.require(os.path.exists(path), c + ": not written")
        g = parse(path)
        util.require(float(g.find("Time").get("Value")) == float(t), c + ": time %s, saved %r" % (g.find("Time").get("Value"), t))
        full = [1] * (3 - dim) + list(case["params"]["shape"])
        topo = g.find("Topology")
        util.require(topo.get("TopologyType") == "3DCORECTMesh", c + ": topology %s" % topo.get("TopologyType"))
        util.require(dims(topo) == full, c + ": topology %s, grid %s" % (dims(topo), full))
        geo = g.find("Geometry")
        util.require(geo.get("GeometryType") == "ORIGIN_DXDYDZ", c + ": geometry %s" % geo.get("GeometryType"))
        items = {i.get("Name"): i for i in geo.findall("DataItem")}
        for nm, want in (("Origin", case["params"]["origin"]), ("Spacing", case["params"]["dx"])):
            got = [float(x) for x in items[nm].text.split()]
            util.require(dims(items[nm]) == [len(got)] and len(got) == 3, "%s: %s declares %s values, has %s"
                         % (c, nm, dims(items[nm]), len(got)))
            digits = 8 if case["io_rt"] == "f32" else 16
            util.close(np.array(got[3 - dim:]), np.array(want), 10.0 ** -digits * (1 + 10 * np.abs(np.array(want))), "%s: %s" % (c, nm))
            precision(int(items[nm].get("Precision")), [4, 8], c, known, case)
        want = []  # a scalar may carry the name of a vector's component
        for k, v in st.eul.items():
            want += [(k, v)] if v.ndim == dim else [("%s_%d" % (k, d), v[d]) for d in range(dim)]
        attrs = g.findall("Attribute")
        names = sorted(k for k, _ in want)
        util.require(sorted(a.get("Name") for a in attrs) == names, "%s: attributes %s, fields %s"
                     % (c, sorted(a.get("Name") for a in attrs), names))
        for a in attrs:
            nm = a.get("Name")
            item = a.find("DataItem")
            util.require(a.get("AttributeType") == "Scalar" and a.get("Center") == "Node", c + ": attribute " + nm)
            util.require(dims(item) == full, "%s: %s has dimensions %s, grid %s" % (c, nm, dims(item), full))
            data = follow(item, h5name, path, c + " " + nm, known, case)
            left = [w for w in want if w[0] == nm]
            match = [w for w in left if np.array_equal(data.reshape(w[1].shape), w[1])] or left
            util.same(data.reshape(match[0][1].shape), match[0][1], "%s: data of %s" % (c, nm))
            want = [w for w in want if w is not match[0]]
    for g_model in st.lag:
        path = "%s_%s.xmf" % (stem, g_model["name"])
        c = ctx + " " + path
        util.require(os.path.exists(path), c + ": not written")
        g = parse(path)
        n = g_model["grid"].shape[1]
        util.require(float(g.find("Time").get("Value")) == float(t), c + ": time")
        topo = g.find("Topology")
        if g_model["conn"]:
            util.require(topo.get("TopologyType") == "Polyline", c + ": topology %s" % topo.get("TopologyType"))
            item = topo.find("DataItem")
            util.require(dims(item) == [1, n], "%s: connection dimensions %s" % (c, dims(item)))
            conn = follow(item, h5name, path, c + " connection", known, case)
            util.same(conn.reshape(-1), np.arange(n), c + ": connection")
        else:
            util.require(topo.get("TopologyType") == "Polyvertex" and int(topo.get("NumberOfElements")) == n,
                         "%s: topology %s %s" % (c, topo.get("TopologyType"), topo.get("NumberOfElements")))
        geo = g.find("Geometry")
        util.require(geo.get("GeometryType") == {2: "XY", 3: "XYZ"}[dim], c + ": geometry %s" % geo.get("GeometryType"))
        item = geo.find("DataItem")
        util.require(dims(item) == [n, dim], "%s: grid dimensions %s, %d points" % (c, dims(item), n))
        pts = follow(item, h5name, path, c + " grid", known, case)
        util.same(pts.reshape(n, dim), g_model["grid"].T, c + ": grid points")
        attrs = g.findall("Attribute")
        util.require(sorted(a.get("Name") for a in attrs) == sorted(g_model["fields"]), "%s: attributes %s, fields %s"
                     % (c, sorted(a.get("Name") for a in attrs), sorted(g_model["fields"])))
        for a in attrs:
            nm = a.get("Name")
            v = g_model["fields"][nm]
            item = a.find("DataItem")
            vec = v.ndim == 2
            util.require(a.get("AttributeType") == ("Vector" if vec else "Scalar"), "%s: %s is declared %s"
                         % (c, nm, a.get("AttributeType")))
            util.require(dims(item) == ([n, dim] if vec else [n]), "%s: %s has dimensions %s" % (c, nm, dims(item)))
            data = follow(item, h5name, path, c + " " + nm, known, case)
            util.same(data.reshape((n, dim) if vec else (n,)), v.T, "%s: data of %s" % (c, nm))
