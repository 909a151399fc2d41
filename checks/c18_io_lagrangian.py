"""C18: every Lagrangian grid and field that is registered is saved and restored, whatever the grids and names."""

COUNTS = {"quick": 90, "thorough": 1500}
RULE = ("histories of saves, changes and loads as in C17 with 1-3 Lagrangian grids: named or default-named, 1..1200 points "
        "(also exactly dim points), 0-3 scalar/vector fields each, equal field names on different grids, fields registered "
        "in one or several calls, connected or not, with and without Eulerian fields. Model: a dictionary of snapshots. "
        "Non-trivial: a load with at least one field and two or more distinct values.")
ASSUMPTIONS = ["default grid names are matched by order of registration, as documented"]


def strategy(st, shard, shards, tier):
    from vf import iomodel, oprun

    @st.composite
    def case(draw):
        dim = draw(st.sampled_from([2, 3]))
        return {"dim": dim, "io_rt": draw(st.sampled_from(["f64", "f32"])), "params": draw(iomodel.params(st, dim)),
                "eul": draw(st.one_of(st.just([]), st.just([]), iomodel.eul_fields(st, oprun, dim, hi=1))),
                "lag": draw(iomodel.lag_grids(st, oprun, dim)), "steps": draw(iomodel.steps(st, oprun))}

    return case()


def run(case):
    from vf import iomodel

    loads, classes = iomodel.history(case)
    return {"nontrivial": loads > 0 and any(g["fields"] for g in case["lag"]), "classes": classes}
