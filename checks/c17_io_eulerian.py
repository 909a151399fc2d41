"""C17: saving and loading Eulerian fields is lossless over any history of saves, loads and changes."""

COUNTS = {"quick": 90, "thorough": 1500}
RULE = ("histories of 4-8 saves, in-memory changes and loads (into fresh or the same arrays, all or some of the fields, in any "
        "order, other precision) over up to five files; 2D/3D, 1-3 scalar/vector fields of either precision in C, Fortran, "
        "padded or strided layout, sometimes with Lagrangian grids next to them. Model: a dictionary of snapshots. Non-trivial: "
        "a load of at least one field with non-constant data.")
ASSUMPTIONS = ["each file is written by one process and not damaged afterwards"]


def strategy(st, shard, shards, tier):
    from vf import iomodel, oprun

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([2, 3]))
        return {"dim": dim, "io_rt": draw(st.sampled_from(["f64", "f32"])), "params": draw(iomodel.params(st, dim)),
                "eul": draw(iomodel.eul_fields(st, oprun, dim)),
                "lag": draw(st.one_of(st.just([]), st.just([]), iomodel.lag_grids(st, oprun, dim, 1, 1))),
                "steps": draw(iomodel.steps(st, oprun))}

    return case()


def run(case):
    from vf import iomodel

    loads, classes = iomodel.history(case)
    return {"nontrivial": loads > 0 and any(f["arr"]["k"] != "const" for f in case["eul"]), "classes": classes}
