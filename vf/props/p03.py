"""P03: comparisons, masks, counting."""
import math
from vf import large
from vf.arrays import *
from vf.props.p02 import broadcast_pair, txt, corrupt as corrupt_r
from vf.core import BADNUM, enc, exc_of

RELS = ["gt", "ge", "lt", "le", "eq"]


def val(rng, dt, pool):
    v = rng.choice(pool) if rng.random() < 0.6 else rng.randint(-60, 60)
    if dt == "f":
        return v
    v *= 8
    return v if dt == "i" else abs(v)


def gen(rng, left=None):
    form = rng.choice(["cmp", "cmp", "cmps", "rcmps"])
    op = rng.choice(RELS * 2 + ["and"])
    pool = [rng.randint(-9, 9) * rng.choice([1, 8]) for _ in range(3)] + [0]
    dta = rng.choice("ffiubb") if op != "and" else rng.choice("ibbu")
    c = Case(kind=form, op=op)
    if form == "cmp":
        dtb = rng.choice("ffiubb") if op != "and" else rng.choice("ibb")
        sa, sb = broadcast_pair(rng)
        va, vb = ([val(rng, d, pool) for _ in range(numel(s))] for d, s in ((dta, sa), (dtb, sb)))
        if "u" in (dta, dtb):
            va, vb = list(map(abs, va)), list(map(abs, vb))
        if op == "and":
            va, vb = [[8 * rng.choice([0, 1, 2, 3, 7, 16, 18, 32, 255]) for _ in v] for v in (va, vb)]
        c["A"], c["B"] = (sa, dta, va), (sb, dtb, vb)
        for n in "AB":
            for cmd in view(rng, n.lower(), c[n][1], c[n][0], [txt(x) for x in c[n][2]])[0]:
                c.do(cmd)
        c.do("cmp %s r a b" % op, "op")
        names = "ab"
    else:
        shape = shapes(rng, 3, 80)
        va = [val(rng, dta, pool) for _ in range(numel(shape))]
        vt = rng.choice("fbi" if dta != "u" else "fb") if op != "and" else rng.choice("bi" if dta != "u" else "b")
        s = val(rng, {"f": "f", "b": "b", "i": "i"}[vt], pool)
        if dta in "u" or vt == "b":
            s = abs(s)
        if dta == "u":
            va = list(map(abs, va))
        if vt != "f":
            s = min(s, 8 * 200)
        if op == "and":
            va, s = [8 * rng.choice([0, 1, 2, 3, 7, 16, 18, 32, 255]) for _ in va], 8 * rng.choice([0, 1, 2, 16, 255, 50])
        c["A"], c["s"] = (shape, dta, va), s
        for cmd in view(rng, "a", dta, shape, [txt(x) for x in va])[0]:
            c.do(cmd)
        c.do("cmps %s r a %s %s" % (op, vt, txt(s)) if form == "cmps" else "rcmps %s r %s %s a" % (op, vt, txt(s)), "op")
        names = "a"
    c.do("get r", "r")
    finish_operands(c, names, 8)
    return c


EXTREMES = {"i": [-2 ** 31, -2 ** 31 + 1, -2 ** 24 - 1, -5, -1, 0, 1, 5, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1], "b": [0, 1, 5, 127, 128, 255],
            "u": [0, 1, 5, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 5, 2 ** 32 - 1],
            "f": [-math.inf, -2.0 ** 31, -2.0 ** 24, -5.0, -0.5, -0.0, 0.5, 1.0, 5.0, 128.0, 2.0 ** 24, 2.0 ** 31, 2.0 ** 32, math.inf, math.nan]}
NONUMBER = 1999999999


def gen_extreme(rng):
    """Values at the ends of what the types hold; the specification sees them by their rank, which is all a relation depends on."""
    form, op = rng.choice(["cmp", "cmp", "cmps", "rcmps"]), rng.choice(RELS)
    c = Case(kind=form, op=op)
    dts = [rng.choice("fiub"), rng.choice("fiub")]
    sa, sb = broadcast_pair(rng)
    va = [rng.choice(EXTREMES[dts[0]]) for _ in range(numel(sa))]
    c["A"] = (sa, dts[0], va)
    if form == "cmp":
        c["B"] = (sb, dts[1], [rng.choice(EXTREMES[dts[1]]) for _ in range(numel(sb))])
    for n in "AB" if form == "cmp" else "A":
        for cmd in view(rng, n.lower(), c[n][1], c[n][0], [repr(x) for x in c[n][2]])[0]:
            c.do(cmd)
    if form == "cmp":
        c.do("cmp %s r a b" % op, "op")
    else:
        c["s"] = rng.choice(EXTREMES[dts[1]])
        c.do("cmps %s r a %s %r" % (op, dts[1], c["s"]) if form == "cmps" else "rcmps %s r %s %r a" % (op, dts[1], c["s"]), "op")
    c.do("get r", "r")
    c["ranks"] = True
    finish_operands(c, "ab" if form == "cmp" else "a", 8)
    return c


def ranked(c, rec):
    """The case with every value replaced by its rank."""
    seen = lambda x: float(x) if isinstance(x, str) else x
    vals = [x for o in rec["ops"] for x in o["v"]] + ([c["s"]] if "s" in c else [])
    order = {x: i for i, x in enumerate(sorted({x for x in vals if x == x}))}
    rank = lambda x: NONUMBER if seen(x) != seen(x) else order.get(seen(x), BADNUM)
    for o in rec["ops"]:
        o["v"] = [rank(x) for x in o["v"]]
    if "s" in c:
        rec["s"] = rank(c["s"])
    return rank


def gen_count(rng):
    dt = rng.choice("bbbfiu")
    shape = shapes(rng, 3, 80)
    v = [rng.choice([0, 0, 8, 16, 128, 8 * 255]) for _ in range(numel(shape))]
    if rng.random() < 0.1:
        v = [rng.choice([0, 8])] * len(v)
    c = Case(kind="count", op="count")
    c["A"] = (shape, dt, v)
    for cmd in view(rng, "a", dt, shape, [txt(x) for x in v])[0]:
        c.do(cmd)
    c.do("count a", "op")
    finish_operands(c, "a", 8, overwrite=False)
    return c


def observe(c, resp):
    w = c.responses(resp)
    ops = [c["A"]] + ([c["B"]] if "B" in c else [])
    rec = {"kind": c["kind"], "op": c["op"], "ops": [{"shape": s, "dt": d, "v": v} for s, d, v in ops]}
    obs = {"exc": exc_of(w["op"]), "r": got(w["r"], 1) if "r" in w and w["r"]["ok"] and w["op"]["ok"] else NONE}
    if c["kind"] == "count":
        obs["n"] = w["op"].get("n", -1)
    if "ranks" in c:
        rank = ranked(c, rec)
        for a in ("after", "after2"):
            obs[a] = [[rank(x) for x in w[a + ":" + n]["a"]["v"]] for n in "ab"[:len(ops)]]
    else:
        obs["after"], obs["after2"] = operands_seen(c, w, "ab"[:len(ops)], 8)
    if "s" in c and "ranks" not in c:
        rec["s"] = c["s"]
    rec["obs"] = obs
    return rec


def corrupt(r):
    o = r["obs"]
    if "n" in o:
        o["n"] += 1
        return r
    if o["exc"] == "" and o["r"]["v"] and o["r"]["v"][0] in (0, 1):
        o["r"]["v"][0] = 1 - o["r"]["v"][0]
        return r
    return None


def check(run):
    run.design("ArrMC", consts={"MaxDim": run.n(3, 4)})
    rng = run.rng
    run.conform("comparisons", "ArrayCheck", [gen(rng) for _ in range(run.n(3000, 30000))], observe, corrupt=corrupt,
                rule="seeded random shapes, layouts, types; values drawn from a small pool so that equality is common")
    run.conform("extreme values", "ArrayCheck", [gen_extreme(rng) for _ in range(run.n(1000, 10000))], observe, corrupt=corrupt,
                rule="seeded random shapes, layouts and pairs of types; values at the ends of the types, infinities and NaN, judged by their rank")
    run.conform("counting", "ArrayCheck", [gen_count(rng) for _ in range(run.n(400, 4000))], observe, corrupt=corrupt,
                rule="seeded random masks and arrays of every layout")
    large.check(run, "large arrays", large.compare, run.n(100, 1200))
