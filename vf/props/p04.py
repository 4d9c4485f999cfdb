"""P04: reductions."""
import itertools, math
from vf import large
from vf.arrays import *
from vf.core import enc, exc_of, rnd, vec

def offset(rng, op, far):
    """Far from zero the spread is small next to the values; a mean there has few digits left after the point."""
    return 0 if not far else rng.choice([30000, 65536, -60000] if op in ("stddev", "var") else [1000, -2000, 8000])


SCALE = {"moment": 1000, "sum": 1, "max": 1, "mean": 1000, "stddev": 100, "var": 100}


def values(rng, n):
    how = rng.random()
    if n > 90:
        return [rng.randint(-40, 40) for _ in range(n)]
    if how < 0.1:
        x = rng.randint(-20, 20)
        return [x] * n
    if how < 0.2:
        return [rng.randint(-150, -100) for _ in range(n)]  # all negative: maxima, initial values
    if how < 0.3:
        return [rng.choice([0, 0, 0, 120]) for _ in range(n)]
    return [rng.randint(-40, 40) for _ in range(n)]


def axes_of(rng, rank):
    return rng.choice(list(itertools.chain.from_iterable(itertools.combinations(range(rank), k) for k in range(rank + 1))))


def shuffled(rng, axes):
    a = list(axes)
    if rng.random() < 0.3:
        rng.shuffle(a)
    return a


def gen(rng, far=False):
    op = rng.choice(list(SCALE)[1:])
    off = offset(rng, op, far)
    shape = shapes(rng, 3, 90)
    if rng.random() < 0.15:
        shape = [rng.randint(1, 3) for _ in range(4)]
    v = values(rng, numel(shape))
    dt = "f"
    if op in ("sum", "max") and rng.random() < 0.25 and not off:
        dt, v = "i", v
    c = Case(kind="red", op=op, axes=shuffled(rng, axes_of(rng, len(shape))))
    c["A"], c["off"] = (shape, dt, v), off
    for cmd in view(rng, "a", dt, shape, [x + off for x in v], junk=lambda: 999)[0]:
        c.do(cmd)
    if op in ("mean", "stddev") and abs(off) < 10000 and rng.random() < 0.25:
        c["kind"], c["m"] = "both", [0] * len(v)
        c.do("mstd r r2 a %s" % vec(c["axes"]), "op").do("get r", "r1").do("get r2", "r2")
    else:
        c.do("red %s r a %s" % (op, vec(c["axes"])), "op").do("get r", "r")
    finish_operands(c, "a", 1)
    return c


def gen_out(rng, far=False):
    c = gen(rng)
    while c["kind"] != "red" or c["op"] == "var" or c["A"][1] != "f":
        c = gen(rng)
    shape, dt, v = c["A"]
    d, off = Case(kind="redout", op=c["op"], axes=c["axes"]), offset(rng, c["op"], far)
    d["A"], d["off"] = c["A"], off
    for cmd in view(rng, "a", dt, shape, [x + off for x in v], junk=lambda: 999)[0]:
        d.do(cmd)
    kept = [n for i, n in enumerate(shape) if i not in c["axes"]] if c["axes"] else []
    oshape = kept or [1]
    cmds, b, bshape, base, pos = view(rng, "o", "f", oshape, [7] * numel(oshape), plain=0.15)
    for cmd in cmds:
        d.do(cmd)
    d["base"], d["pos"], d["scale"] = base, pos, SCALE[c["op"]]
    d.do("redout %s o a %s" % (c["op"], vec(c["axes"])), "op").do("get " + b, "base")
    finish_operands(d, "a", 1, result="o")
    return d


def gen_median(rng):
    shape = shapes(rng, 3, 60)
    v = values(rng, numel(shape))
    c = Case(kind="median", op="median", axes=[])
    c["A"] = (shape, "f", v)
    for cmd in view(rng, "a", "f", shape, v, junk=lambda: 999)[0]:
        c.do(cmd)
    c.do("median a 0", "op")
    finish_operands(c, "a", 1, overwrite=False)
    return c


def count_in(c, rng):
    """The same case with single-precision elements counted in a power of two: large or small powers."""
    op = c["op"]
    # the moments add a small constant to the power of the deviation they divide by
    k = rng.choice([x for x in UNITS if x > 0] if op == "moment" else UNITS if op == "var" else UNITS + [75, 90])
    of = 2 * k if op == "var" else 0 if op == "moment" else k  # the unit of the result
    cmds, want = ["unit %d" % k], [None]
    for cmd, w in zip(c["cmds"], c["want"]):
        if w == "r" and of != k:
            cmds += ["unit %d" % of, cmd, "unit %d" % k]
            want += [None, w, None]
        else:
            cmds.append(cmd)
            want.append(w)
    c["cmds"], c["want"] = cmds, want
    return c


def groups(shape, axes):
    g = {}
    for k in range(numel(shape)):
        c, r = [], k
        for n in reversed(shape):
            c.insert(0, r % n)
            r //= n
        g.setdefault(tuple(x for d, x in enumerate(c) if axes and d not in axes), []).append(k)
    return list(g.values())


def countable(v, gs, degree):
    """Do the whole numbers that decide the moment fit?"""
    for g in gs:
        s = sum(v[k] for k in g)
        d = [len(g) * v[k] - s for k in g]
        q = math.gcd(*d) or 1
        d = [x // q for x in d]
        s2, s3, s4 = (sum(x ** k for x in d) for k in (2, 3, 4))
        big = [s2] if degree < 3 else [10 * s2 ** 3, s3 * s3 * (len(g) - 1)] if degree == 3 else [10 * s2 * s2, s4 * (len(g) - 1)]
        if max(big) > 2 ** 31 - 1 or max(abs(x) for x in d) ** degree > 2 ** 31 - 1:
            return False
    return True


def gen_moment(rng):
    """Moments about the mean; a scale and an offset change nothing."""
    degree = rng.choice([1, 2, 3, 3, 4, 4, 4, 4])
    while True:
        shape = shapes(rng, 3, 90)
        axes = shuffled(rng, axes_of(rng, len(shape)))
        gs = groups(shape, axes)
        if len(gs[0]) < 2:
            continue
        few = rng.choice([1, 1, 2, 3, 6])
        v = [rng.randint(0, few) for _ in range(numel(shape))]
        if rng.random() < 0.15:
            for k in gs[-1]:
                v[k] = 1  # a constant part
        k, o = rng.choice([1, 1, 2, 7, 100]), rng.choice([0, 0, 5, -40])
        v = [k * x + o for x in v]
        if countable(v, gs, degree):
            break
    c = Case(kind="moment", op="moment", axes=axes, degree=degree)
    c["A"] = (shape, "f", v)
    for cmd in view(rng, "a", "f", shape, v, junk=lambda: 999)[0]:
        c.do(cmd)
    c.do("moment r a %d %s" % (degree, vec(axes)), "op").do("get r", "r")
    finish_operands(c, "a", 1)
    return c


def nearer(op, off, elements):
    """What the offset of all elements adds to a result"""
    return {"mean": off, "max": off, "sum": off * elements}.get(op, 0)


def seen(r, op, ok, off=0, elements=0):
    if not ok:
        return NONE
    a, s, o = r["a"], SCALE[op], nearer(op, off, elements)
    return {"shape": a["shape"], "dt": a["dt"], "v": [(enc if op in ("sum", "max") else rnd)(less(x, o), s) for x in a["v"]]}


def less(x, o):
    return x - o if isinstance(x, (int, float)) else x


def observe(c, resp):
    w = c.responses(resp)
    ops = [c["A"]] + ([c["B"]] if "B" in c else [])
    rec = {"kind": c["kind"], "op": c["op"], "axes": c["axes"], "ops": [{"shape": s, "dt": d, "v": v} for s, d, v in ops]}
    if "degree" in c:
        rec["degree"] = c["degree"]
    ok = w["op"]["ok"]
    obs = {"exc": exc_of(w["op"])}
    off = c.get("off", 0)
    n = numel(c["A"][0])
    n = n // max(1, numel([x for i, x in enumerate(c["A"][0]) if i not in c["axes"]])) if c["axes"] else n
    for f in ("after:a", "after2:a"):
        if off and f in w and w[f]["ok"]:
            w[f]["a"]["v"] = [less(x, off) for x in w[f]["a"]["v"]]
    obs["after"], obs["after2"] = operands_seen(c, w, "ab"[:len(ops)], 1)
    if c["kind"] == "both":
        rec["m"] = c["m"]
        obs["r1"], obs["r2"] = seen(w["r1"], "mean", ok, off, n), seen(w["r2"], "stddev", ok, off, n)
        obs["r"] = obs["r1"]
    elif c["kind"] == "redout":
        for f in ("base", "pos", "scale"):
            rec[f] = c[f]
        s = SCALE[c["op"]]
        near = {p - 1 for p in c["pos"]}
        obs["base"] = [rnd(less(x, nearer(c["op"], off, n)) if i in near else x, s) for i, x in enumerate(w["base"]["a"]["v"])]
        obs["r"] = NONE
    elif c["kind"] == "median":
        obs["n"] = enc(w["op"]["v"], 2) if ok else -1
        obs["r"] = NONE
    else:
        obs["r"] = seen(w["r"], c["op"], ok, off, n)
    rec["obs"] = obs
    return rec


def corrupt(r):
    o = r["obs"]
    if "n" in o:
        o["n"] += 1
        return r
    for f in ("r2", "r"):
        if o.get(f, NONE)["v"]:
            o[f]["v"][-1] += 400 if r["op"] not in ("sum", "max") else 1
            return r
    if o.get("base"):
        o["base"][r["pos"][0] - 1] += 400
        return r
    return None


def check(run):
    run.design("ArrMC", consts={"MaxDim": run.n(3, 4)})
    rng = run.rng
    run.conform("reductions", "ArrayCheck", [gen(rng) for _ in range(run.n(2000, 20000))], observe, corrupt=corrupt,
                rule="seeded random shapes up to rank 4, layouts, axis sets and values")
    run.conform("reductions into a view", "ArrayCheck", [gen_out(rng) for _ in range(run.n(500, 5000))], observe, corrupt=corrupt)
    run.conform("moments", "ArrayCheck", [gen_moment(rng) for _ in range(run.n(500, 5000))], observe, corrupt=corrupt,
                rule="moments of degree 1-4 over shapes, layouts and axis sets, scaled and offset")
    run.conform("median", "ArrayCheck", [gen_median(rng) for _ in range(run.n(300, 3000))], observe, corrupt=corrupt)
    kinds = [gen, gen, gen_out, gen_median, gen_moment]
    run.conform("elements of any magnitude", "ArrayCheck", [count_in(kinds[i % 5](rng), rng) for i in range(run.n(500, 6000))], observe, corrupt=corrupt,
                rule="the above with elements counted in powers of two from 2^-60 to 2^90")
    run.conform("elements far from zero", "ArrayCheck", [(gen, gen, gen_out)[i % 3](rng, True) for i in range(run.n(400, 5000))], observe, corrupt=corrupt,
                rule="the first two with an offset added to every element, and taken out of the results")
    large.check(run, "large arrays", large.reduce, run.n(120, 1500))
