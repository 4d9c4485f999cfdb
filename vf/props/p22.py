"""P22: normalisation and passband correction over histories of objects of every level."""
import os, struct
from fractions import Fraction
from vf.arrays import view, UNITS
from vf.levels import *


def case(rng, hist, scratch, number, unit=0):
    nt, nf = rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 3, 4, 5, 8, 9, 16])
    plan, objs = Plan(), Objects()
    srcs, hs, types = [], [], []
    for j in range(3):
        v = [rng.randint(1, 60) if rng.random() < 0.9 else rng.choice([0, -5, 60]) for _ in range(nt * nf)]
        v[rng.randrange(len(v))] = rng.randint(7, 60)
        m = [rng.choice([0, 0, 0, 1, 4, 64]) for _ in range(nt * nf)]
        num = rng.choice([0, 3, 40])
        md = [num, nt, nf]
        srcs.append({"nt": nt, "nf": nf, "data": v, "mask": m, "md": md})
        plan.setup("@%d new sd%d f 2 %d %d %s" % (unit, j + 1, nt, nf, vec(v)))
        plan.setup("new sm%d b 2 %d %d %s" % (j + 1, nt, nf, vec(m)))
    for j in range(2):
        ft = rng.choice("fffbi")  # the type of the elements in the file
        h = [rng.choice([4, 6, 8, 10, 12, 16] if ft == "f" else [8, 16, 24, 32]) for _ in range(nf)]
        if len(set(h)) == 1 and nf > 1:
            h[0] = 16 if h[0] != 16 else 8
        types.append(ft)
        hs.append([[Fraction(x, 8).numerator, Fraction(x, 8).denominator] for x in h])
        for cmd in view(rng, "h%d" % (j + 1), "f", [nf], [x / 8 for x in h], junk=lambda: 77)[0]:
            plan.setup("@0 " + cmd)
        with open(os.path.join(scratch, "h%d-%d" % (number, j + 1)), "wb") as fh:
            fh.write(struct.pack("<%d%s" % (nf, {"f": "f", "b": "B", "i": "i"}[ft]), *[x / 8 if ft == "f" else x // 8 for x in h]))
    for c in hist:
        emit(plan, objs, c, srcs, scratch, number, unit, types)
    rest = [(n, lvl, p) for n in objs.shape for lvl, ps in [objs.paths(n)] for p in ps]
    rng.shuffle(rest)
    for n, lvl, p in rest[:14]:
        emit(plan, objs, {"op": "get", "d": "", "a": n, "n": 0, "l": p, "lvl": lvl}, srcs, scratch, number, unit, types)
    return {"cmds": plan.cmds, "plan": list(plan), "srcs": srcs, "hs": hs}


def emit(plan, objs, c, srcs, scratch, number, unit, types):
    op, d, a = c["op"], c["d"], c["a"]
    lvl = objs.shape[a][0] if a in objs.shape else objs.shape[c["l"][0]][0] if op == "wrap" else "c"
    if op == "make":
        cmds = ["copy %s_d sd%d" % (d, c["n"]), "copy %s_m sm%d" % (d, c["n"]),
                "cc %s %s_d %s_m 1000 -0.001 1 60000 %d src" % (d, d, d, srcs[c["n"] - 1]["md"][0])]
    elif op == "get":
        pre, x = descend(lvl, a, c["l"])
        cmds = pre + ["@%d ccget %s" % (unit, x), "@0 ccget " + x, "ccinfo " + x]
    elif op == "handle":
        cmds = structural(c, lvl) or {"t": ["stage t rolloff %s %s 0" % (d, a)], "k": ["stage k rolloff %s %s 0" % (d, a)]}[lvl]
    elif op in ("wrap", "pick"):
        cmds = structural(c, lvl)
    else:
        arg = {"normalize": "", "equalize": "h%d" % c["n"], "equalizefile": "%s %s" % (os.path.join(scratch, "h%d-%d" % (number, c["n"])), types[c["n"] - 1] if c["n"] else "f")}[op]
        cmds = ["stage %s %s %s %s %s" % (lvl, op, d, a, arg)]
    objs.note(c)
    plan.step(c, cmds)


def see(c, rs):
    e = {"exc": first_exc(rs)}
    if c["op"] == "get" and not e["exc"]:
        g, p, i = rs[-3:]
        e.update(data=[rnd(x, 4096) for x in g["data"]["v"]], plain=[rnd(x, 4096) for x in p["data"]["v"]], mask=[enc(x) for x in g["mask"]["v"]], md=[i["num"], i["nt"], i["nchans"]])
        if g["data"]["shape"] != g["mask"]["shape"]:
            e["md"] = g["data"]["shape"]
    return e


def observe(case, resp):
    return {"srcs": case["srcs"], "hs": case["hs"], "steps": steps(case["plan"], resp, see)}


def corrupt(r):
    for s in r["steps"]:
        if "data" in s:
            s["data"][-1] += 50
            s["plain"][-1] += 50
            return r
    return None


def check(run):
    run.design("PassbandMC", consts={"MaxLevel": run.n(3, 4)})
    for depth, num, units in ((12, run.n(250, 3000), [0]), (20, run.n(150, 2000), [0]), (12, run.n(150, 2000), UNITS)):
        hs = run.behaviours("PassbandGen", num=num, depth=depth, consts={"Depth": depth})
        run.conform("correction, depth %d" % depth + ", powers of any magnitude" * (len(units) > 1), "PassbandTrace",
                    [case(run.rng, h, run.scratch, i, run.rng.choice(units)) for i, h in enumerate(hs)], observe, corrupt=corrupt,
                    rule="behaviours of Passband generated by TLC simulation over seeded random spectrograms and responses; every object read back")
