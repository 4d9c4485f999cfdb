"""P02: element-wise arithmetic over broadcast views."""
from vf import large
from vf.arrays import *
from vf.core import enc, exc_of

LIM = {"f": (-4000, 4000), "i": (-30000, 30000), "u": (0, 30000), "b": (0, 255)}


def value(rng, dt, op=None, divisor=False, floats=False):
    """A value in eighths that element type dt can hold."""
    if divisor:
        if dt == "f":
            return rng.choice([1, 2, 4, 8, 16, 32, 64]) * rng.choice([1, -1])
        if floats:  # quotient must be exact in floating point
            v = rng.choice([8, 16, 32, 64])
        else:
            v = 8 * rng.choice([1, 2, 3, 4, 5, 7, 9, 12])
        return -v if dt == "i" and rng.random() < 0.4 else v
    if dt == "f":
        return rng.randint(-160, 160)
    if dt == "i":
        return 8 * rng.randint(-40, 40)
    return 8 * rng.randint(0, 15 if op == "mul" else 60)


def in_range(dt, r64):
    lo, hi = LIM[dt]
    return lo * 64 <= r64 <= hi * 64


def exact(op, x, y):
    return {"add": 8 * (x + y), "sub": 8 * (x - y), "mul": x * y}.get(op) if op != "div" else (64 * x) / y


def txt(v8):
    return v8 / 8 if v8 % 8 else v8 // 8


def broadcast_pair(rng):
    while True:
        sa = shapes(rng, 3, 60)
        sb = list(sa)
        how = rng.random()
        if how < 0.35:
            pass
        elif how < 0.8:
            sb = [1 if rng.random() < 0.4 else n for n in sb]
            sa = [1 if rng.random() < 0.2 else n for n in sa]
        else:
            sb = shapes(rng, 3, 60)
        if rng.random() < 0.35 and len(sb) > 1:
            sb = sb[rng.randint(1, len(sb) - 1):]
        if rng.random() < 0.5:
            sa, sb = sb, sa
        nd = max(len(sa), len(sb))
        pa, pb = [1] * (nd - len(sa)) + sa, [1] * (nd - len(sb)) + sb
        if numel([max(x, y) for x, y in zip(pa, pb)]) <= (150 if numel(pa) <= 60 and numel(pb) <= 60 else 700):
            return sa, sb


def pick(rng, op, dta, dtb, n, want_b, neg_ok=True):
    pass


def gen_bin(rng):
    op = rng.choice(["add", "sub", "mul", "div"])
    dta, dtb = rng.choice("fffiiub"), rng.choice("fffiiub")
    if dta == "i" and dtb == "u" or dta == "u" and dtb == "i":
        dtb = dta  # signed/unsigned mixtures follow the machine's conversions, not arithmetic
    sa, sb = broadcast_pair(rng)
    fl = dta == "f" or dtb == "f"
    lo = 30 if dta in "ub" and op == "sub" else 0
    va = [value(rng, dta, op) for _ in range(numel(sa))]
    vb = [value(rng, dtb, op, divisor=op == "div", floats=dta == "f") for _ in range(numel(sb))]
    if op == "sub" and dta in "ub":
        va = [8 * rng.randint(60, 120) for _ in va]
        vb = [min(abs(v), 480) for v in vb] if dtb != "u" and dtb != "b" else vb
    if dta in "ub" and op in ("add", "mul", "div"):
        vb = [abs(v) for v in vb]
        if op == "mul":
            va, vb = [v if v <= 120 else 120 for v in va], [v if v <= 128 else 128 for v in vb]
    # products and quotients with a fractional operand must be exact in 1/64
    if op == "div" and dtb == "f" and dta in INTS:
        vb = [v if abs(v) >= 1 else 8 for v in vb]
    c = Case(kind="bin", op=op)
    c["A"], c["B"] = (sa, dta, va), (sb, dtb, vb)
    for n, (s, dt, v) in (("a", c["A"]), ("b", c["B"])):
        for cmd in view(rng, n, dt, s, [txt(x) for x in v])[0]:
            c.do(cmd)
    same = False
    c.do("bin %s r a b %s" % (op, rng.choice("omf")), "op").do("get r", "r")
    finish_operands(c, "ab", 8)
    return c


def gen_self(rng):
    """Both operands are (views of) the same array."""
    c = gen_bin(rng)
    while c["A"][1] != "f" or c["op"] == "div":
        c = gen_bin(rng)
    sa, dt, va = c["A"]
    d = Case(kind="bin", op=c["op"])
    d["A"] = d["B"] = (sa, dt, va)
    for cmd in view(rng, "a", dt, sa, [txt(x) for x in va])[0]:
        d.do(cmd)
    d.do("handle b a").do("bin %s r a b %s" % (c["op"], rng.choice("omf")), "op").do("get r", "r")
    finish_operands(d, "ab", 8)
    return d


def gen_scal(rng):
    left = rng.random() < 0.4
    op = rng.choice(["add", "sub", "mul", "div"])
    while True:
        dt = rng.choice("fffiiub")
        vt = rng.choice("fi") if left else rng.choice("ffiub")
        if left and dt in INTS:
            vt = "i"
        if left and dt in "ub" and op == "sub":
            continue
        if dt == "u" and vt == "i" or dt == "i" and vt == "u":
            continue
        shape = shapes(rng, 3, 90)
        if op == "div" and left:
            a = [value(rng, dt, op, divisor=True, floats=False) for _ in range(numel(shape))]
            s = value(rng, {"f": "f", "i": dt}[vt] if vt == "f" else dt if dt in INTS else "i")
            if dt in "ub":
                s = abs(s)
        else:
            a = [value(rng, dt, op) for _ in range(numel(shape))]
            if op == "sub" and dt in "ub":
                a = [8 * rng.randint(60, 120) for _ in a]
            s = value(rng, "f" if vt == "f" else vt, op, divisor=op == "div", floats=dt == "f")
            if dt in "ub" or vt in "ub":
                s = abs(s)
            if op == "sub" and dt in "ub":
                s = min(s, 480)
            if op == "mul" and dt in "ub":
                a, s = [min(v, 120) for v in a], min(s, 128)
            if vt in "iub":
                s -= s % 8
                if op == "div" and s == 0:
                    continue
        f = (lambda x: exact(op, s, x)) if left else (lambda x: exact(op, x, s))
        if all(in_range(dt, f(x)) for x in a):
            break
    c = Case(kind="rscal" if left else "scal", op=op, s=s)
    c["A"] = (shape, dt, a)
    for cmd in view(rng, "a", dt, shape, [txt(x) for x in a])[0]:
        c.do(cmd)
    if left:
        c.do("rscal %s r %s %s a" % (op, vt, txt(s)), "op")
    else:
        c.do("scal %s r a %s %s %s" % (op, vt, txt(s), rng.choice("of")), "op")
    c.do("get r", "r")
    finish_operands(c, "a", 8)
    return c


def unary_values(rng, op, dt, n):
    if op == "sqrt":
        if dt == "f":
            return [2 * rng.randint(0, 30) ** 2 for _ in range(n)]  # (k/2)^2
        return [8 * rng.randint(0, 200) for _ in range(n)]
    if op == "square":
        return [rng.randint(-80, 80) if dt == "f" else 8 * rng.randint(-90 if dt == "i" else 0, 15) for _ in range(n)]
    return [value(rng, dt) for _ in range(n)]


def gen_un(rng):
    op = rng.choice(["square", "sqrt", "abs"])
    dt = rng.choice("ffib") if op == "sqrt" else rng.choice("ffiub")
    shape = shapes(rng, 3, 90)
    v = unary_values(rng, op, dt, numel(shape))
    c = Case(kind="un", op=op)
    c["A"] = (shape, dt, v)
    for cmd in view(rng, "a", dt, shape, [txt(x) for x in v])[0]:
        c.do(cmd)
    c.do("un %s r a" % op, "op").do("get r", "r")
    finish_operands(c, "a", 8)
    return c


def gen_unout(rng):
    op = rng.choice(["square", "sqrt", "abs"])
    dt = rng.choice("ffi")
    odt = rng.choice("fi") if dt == "i" and op != "sqrt" else dt
    shape = shapes(rng, 3, 60)
    src = [1 if rng.random() < 0.2 else n for n in shape]
    v = unary_values(rng, op, dt, numel(src))
    if odt == "i":
        v = [x - x % 8 for x in v]
    c = Case(kind="unout", op=op)
    c["A"] = (src, dt, v)
    for cmd in view(rng, "a", dt, src, [txt(x) for x in v])[0]:
        c.do(cmd)
    cmds, b, bshape, base, pos = view(rng, "o", odt, shape, [5] * numel(shape), plain=0.1)
    for cmd in cmds:
        c.do(cmd)
    c.do("unout %s r a o" % op, "op").do("get " + b, "base")
    c["outshape"], c["outdt"], c["base"], c["pos"] = shape, odt, [8 * x for x in base], pos
    finish_operands(c, "a", 8, result="o")
    return c


def observe(c, resp):
    w = c.responses(resp)
    ops = [c["A"]] + ([c["B"]] if "B" in c else [])
    names = "ab"[:len(ops)]
    rec = {"kind": c["kind"], "op": c["op"], "ops": [{"shape": s, "dt": d, "v": v} for s, d, v in ops]}
    obs = {"exc": exc_of(w["op"]), "r": got(w["r"], 64) if "r" in w and w["r"]["ok"] and w["op"]["ok"] else NONE}
    obs["after"], obs["after2"] = operands_seen(c, w, names, 8)
    for f in ("s", "outshape", "outdt", "base", "pos"):
        if f in c:
            rec[f] = c[f]
    if "base" in w:
        obs["base"] = [enc(x, 64) for x in w["base"]["a"]["v"]]
    rec["obs"] = obs
    return rec


def corrupt(r):
    o = r["obs"]
    if o["exc"] == "" and o["r"]["v"]:
        o["r"]["v"][-1] += 64
        return r
    if o.get("base"):
        o["base"][0] += 64
        return r
    return None


def overflow(c):
    """Results outside the range of the result type are not generated."""
    if c["kind"] != "bin":
        return False
    (sa, da, va), (sb, db, vb) = c["A"], c["B"]
    lo = min(exact(c["op"], x, y) for x in (min(va), max(va)) for y in set(vb)) if c["op"] == "div" else 0
    vals = [exact(c["op"], x, y) for x in (min(va), max(va)) for y in (min(vb), max(vb)) if not (c["op"] == "div" and y == 0)]
    return not all(in_range(da, v) for v in vals) or (c["op"] == "div" and any(not float(64 * x / y).is_integer() for x in va for y in set(vb)) and da == "f")


def check(run):
    run.design("ArrMC", consts={"MaxDim": run.n(3, 4)})
    rng = run.rng
    for fam, gen, n in (("binary", gen_bin, 1500), ("same array twice", gen_self, 150), ("scalar", gen_scal, 900),
                        ("unary", gen_un, 500), ("unary into a view", gen_unout, 400)):
        cases = []
        while len(cases) < run.n(n, n * 10):
            c = gen(rng)
            if not overflow(c):
                cases.append(c)
        run.conform(fam, "ArrayCheck", cases, observe, corrupt=corrupt, rule="seeded random shapes, layouts, element types and values")
    large.check(run, "large arrays", large.arith, run.n(120, 1500))
