"""C10: the characteristic function is the sine-smoothed Heaviside of the level set."""
import os

from vf.ops import OPS, BLENDS
from vf import oprun

KEYS = [k for k in OPS if k.startswith("char_")]
COUNTS = {"quick": 300, "thorough": 3000}
RULE = ("characteristic field per case: dimension x blend width x precision x threads x fixed/dynamic size x shape x "
        "level-set values (inside, outside and exactly at the blend zone's ends) x layout, 1-3 calls. Range, "
        "monotonicity and chi(phi)+chi(-phi)=1 are checked on each. Non-trivial: some cell lies in the blend zone.")
ASSUMPTIONS = []


def strategy(st, shard, shards, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    pool = oprun.make_pool(OPS, KEYS, "C10/" + seed, shard, shards,
                           {"quick": {"copies": 8, "configs": 2}, "thorough": {"copies": 8, "configs": 4}}[tier], tier)
    base = oprun.op_case(st, OPS, pool, tier)

    @st.composite
    def case(draw):
        c = draw(base)
        if draw(st.integers(0, 2)) > 0:
            w = BLENDS[c["op"].split("_")[1]]
            c["arr"]["level_set_field"] = {
                "k": "tile", "m": w,
                "c": draw(st.lists(st.one_of(st.sampled_from([-1.0, 1.0, 0.0, 0.5, -0.5, 1.5, -1.5, 0.999, -0.999, 1.0001]),
                                             st.integers(-1600, 1600).map(lambda i: i * 1e-3)), min_size=1, max_size=12))}
        return c
    return case()


def run(case):
    import numpy as np
    from vf import util

    o = OPS[case["op"]]
    w = o.cfg["blend_width"]
    seen = []

    def law(o, case, k, args, pars, before, ctx):
        phi = util.d(before["level_set_field"])
        chi = util.d(args["char_func_field"])
        tol = 64 * util.eps(case["rt"])
        util.require(bool(np.all((chi >= -tol) & (chi <= 1 + tol))), ctx + ": value outside [0, 1]")
        order = np.argsort(phi, axis=None, kind="stable")
        util.require(bool(np.all(np.diff(chi.reshape(-1)[order]) >= -tol)), ctx + ": not monotone in the level set")
        neg = np.array(-np.asarray(args["level_set_field"]), order="C")
        out = np.full(neg.shape, 5.0, dtype=neg.dtype)
        with util.sut(ctx):
            k(char_func_field=out, level_set_field=neg)
        util.close(chi + util.d(out), np.ones(chi.shape), 2 * tol, ctx + ": chi(phi) + chi(-phi)")
        if (np.abs(phi) < w).any():
            seen.append(1)
        lab = []
        if (np.abs(phi) < w).any():
            lab.append("blend zone")
        if (phi > w).any():
            lab.append("inside")
        if (phi < -w).any():
            lab.append("outside")
        return lab

    r = oprun.run_op(o, case, law)
    r["nontrivial"] = bool(seen)
    return r
