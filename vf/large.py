"""Cases over large arrays, described by runs of equal elements (Runs, RunsCheck)."""
import os
from vf.core import enc, exc_of, rnd, vec

SHAPES = [[70000], [65537], [33000], [300, 300], [2, 40000], [40000, 2], [3, 22000], [5000], [1, 66000], [8, 90, 100], [4, 5, 6, 700]]
LO = {"f": -300, "i": -300, "u": 0, "b": 0}


def txt(v8):
    return v8 / 8 if v8 % 8 else v8 // 8


def numel(shape):
    n = 1
    for x in shape:
        n *= x
    return n


def cut(rng, n, vals):
    """n elements in a few runs; edges also near powers of two."""
    at = {n}
    for _ in range(rng.choice([0, 1, 2, 4])):
        x = rng.choice([rng.randint(1, n), 255, 256, 257, 32767, 32768, 65535, 65536, 65537, n - 1])
        if 0 < x < n:
            at.add(x)
    out, last = [], 0
    for e in sorted(at):
        out.append([e - last, vals()])
        last = e
    return out


class Big(dict):
    def __init__(self, **kw):
        super().__init__(kw)
        self.update(cmds=[], want=[], ops=[])

    def do(self, cmd, want=None):
        self["cmds"].append(cmd)
        self["want"].append(want)
        return self

    def operand(self, rng, name, dt, shape, runs, scale):
        """An array with these runs; sometimes a slice of a larger one."""
        d = rng.randrange(len(shape))
        if rng.random() < 0.5:
            base = list(shape)
            o, st, ex = rng.choice([0, 1, 3]), rng.choice([1, 1, 2]), rng.choice([0, 1, 2])
            base[d] = o + st * shape[d] + ex
            self.do("newfill %s_b %s %s i 99" % (name, dt, vec(base))).do("slice %s %s_b %d %d %d %d" % (name, name, d, o, o + st * shape[d], st))
        else:
            self.do("newfill %s %s %s i 99" % (name, dt, vec(shape)))
        flat = [x for n, v in runs for x in (n, txt(v) if scale == 8 else v)]
        self.do("setruns %s %d %s" % (name, len(flat), " ".join(str(x) for x in flat)))
        self["ops"].append({"shape": shape, "dt": dt, "runs": [{"n": n, "v": v} for n, v in runs], "name": name, "scale": scale})

    def done(self):
        for o in self["ops"]:
            self.do("getruns " + o["name"], "after:" + o["name"])
        return self


def value(rng, dt, op):
    if dt == "f":
        return rng.randint(-160, 160)
    if dt == "i":
        return 8 * rng.randint(-40, 40)
    return 8 * rng.randint(0, 15 if op == "mul" else 60)


def divisor(rng, dt):
    return rng.choice([1, 2, 4, 8, 16, 32]) * rng.choice([1, -1]) if dt == "f" else 8 * rng.choice([1, 2, 3, 5, 9])


def pair(rng, c, op, dt):
    shape = rng.choice(SHAPES)
    n = numel(shape)
    a = cut(rng, n, lambda: value(rng, dt, op) + (8 * 70 if op == "sub" and dt in "ub" else 0))
    b = cut(rng, n, lambda: divisor(rng, dt) if op == "div" else value(rng, dt, op))
    c.operand(rng, "a", dt, shape, a, 8)
    c.operand(rng, "b", dt, shape, b, 8)


def arith(rng):
    kind, op, dt = rng.choice(["bin", "bin", "scal", "un"]), rng.choice(["add", "sub", "mul", "div"]), rng.choice("ffiub")
    c = Big(kind=kind, op=op)
    if kind == "bin":
        pair(rng, c, op, dt)
        c.do("bin %s r a b %s" % (op, rng.choice("om")), "op")
    else:
        if kind == "un":
            c["op"] = rng.choice(["square", "abs", "copy"])
            dt = "f" if c["op"] != "copy" else dt
        shape = rng.choice(SHAPES)
        c.operand(rng, "a", dt, shape, cut(rng, numel(shape), lambda: value(rng, dt, "mul") + (8 * 20 if op == "sub" and dt in "ub" else 0)), 8)
        if kind == "un":
            c.do("copy r a" if c["op"] == "copy" else "un %s r a" % c["op"], "op")
        else:
            c["s"] = divisor(rng, dt) if op == "div" else 8 * rng.randint(0, 15)
            c.do("scal %s r a %s %s o" % (op, "f" if dt == "f" else "i", txt(c["s"])), "op")
    return c.do("getruns r", "r").done()


def compare(rng):
    op, dt = rng.choice(["gt", "ge", "lt", "le", "eq", "count"]), rng.choice("ffiub")
    c = Big(kind="cmp" if rng.random() < 0.6 else "cmps", op=op)
    few = [8 * rng.randint(0, 30) for _ in range(3)]
    shape = rng.choice(SHAPES)
    if op == "count":
        c["kind"] = "count"
        c.operand(rng, "a", "b", shape, cut(rng, numel(shape), lambda: rng.choice([0, 8, 16, 8 * 255])), 8)
        return c.do("count a", "op").done()
    c.operand(rng, "a", dt, shape, cut(rng, numel(shape), lambda: rng.choice(few)), 8)
    if c["kind"] == "cmp":
        c.operand(rng, "b", dt, shape, cut(rng, numel(shape), lambda: rng.choice(few)), 8)
        c.do("cmp %s r a b" % op, "op")
    else:
        c["s"] = rng.choice(few)
        c.do("cmps %s r a %s %s" % (op, "f" if dt == "f" else "i", txt(c["s"])), "op")
    return c.do("getruns r", "r").done()




def reduce(rng, masked=False):
    op = rng.choice(["mean", "stddev"] if masked else ["sum", "max", "mean", "stddev", "median"])
    shape = rng.choice(SHAPES)
    n = numel(shape)
    axes = [1] if len(shape) == 2 and shape[0] <= (300 if op != "stddev" else 3) and op != "median" and rng.random() < 0.5 else []
    c = Big(kind="median" if op == "median" else "red", op=op, axes=axes, masked=1 if masked else 0)
    if op == "stddev":
        # as many elements above the mean as below, in every group
        d, mid = rng.choice([0, 5, 20, 100]), rng.randint(-50, 50)
        parts = ([shape[1]] * shape[0]) if axes else [n]
        runs, m = [], []
        for g in parts:
            h = rng.randint(max(1, g // 4), g // 2) if masked else g // 2
            left = g - 2 * h
            if not masked and left:  # an element too many: no deviation at all
                return reduce(rng, masked)
            runs += [[h, mid + d], [h, mid - d]] + ([[left, 30000]] if left else [])
            m += [[2 * h, 0]] + ([[left, rng.choice([1, 2, 255])]] if left else [])
    else:
        big = op != "mean" and op != "sum"
        runs = cut(rng, n, lambda: rng.randint(-4000, 4000) if big else rng.randint(-40, 40))
        m = cut(rng, n, lambda: rng.choice([0, 0, 1, 4, 255]))
        if masked:
            if axes:
                axes[:] = []
            if all(v for _, v in m):
                m[-1][1] = 0
    c.operand(rng, "a", "f" if masked or op not in ("sum", "max") else rng.choice("fi"), shape, runs, 1)
    if masked:
        c.operand(rng, "b", "b", shape, m, 1)
        c.do("mred %s r a b %s" % (op, vec(axes)), "op")
    elif op == "median":
        return c.do("median a 0", "op").done()
    else:
        c.do("red %s r a %s" % (op, vec(axes)), "op")
    return c.do("getruns r", "r").done()


def files(rng, scratch):
    kind = rng.choice(["file", "arange", "linspace"])
    if kind == "file":
        c = Big(kind="file", op="file", path=os.path.join(scratch, "large-%d" % rng.randrange(1 << 40)))
        shape = rng.choice(SHAPES)
        c.operand(rng, "a", "f", shape, cut(rng, numel(shape), lambda: rng.randint(-800, 800)), 8)
        return c.do("write a %s" % c["path"]).do("read r %s f" % c["path"], "op").do("getruns r", "r").done()
    n, step, start = rng.choice([5000, 33000, 65536, 65537, 70000, 100000]), rng.choice([1, 2, 8, 16, -8]), 8 * rng.randint(-100, 100)
    c = Big(kind="range", op=kind, count=n, step=step, start=start)
    if kind == "linspace":  # the step must be exact in single precision
        n = c["count"] = rng.choice([4096, 32768, 65536, 131072])
        c.do("linspace r f %s %s %d" % (txt(start), txt(start + step * n), n), "op")
    else:
        c.do("arange r f f %s %s %s" % (txt(start), txt(start + step * n), txt(step)), "op")
    return c.do("getsteps r", "r").done()


def runs(w, scale, f):
    return [{"n": n, "v": f(v, scale)} for n, v in zip(w["n"], w["v"])]


def observe(c, resp):
    w = {k: r for k, r in zip(c["want"], resp) if k}
    r = {k: c[k] for k in ("kind", "op", "s", "axes", "masked", "count", "start", "step") if k in c}
    r["ops"] = [{k: o[k] for k in ("shape", "dt", "runs")} for o in c["ops"]]
    o = {"exc": exc_of(w["op"])}
    if not o["exc"]:
        o["after"] = [runs(w["after:" + x["name"]], x["scale"], enc) for x in c["ops"]]
        if "r" in w:
            s, f = {"mean": (1000, rnd), "stddev": (100, rnd)}.get(c["op"], (1, enc)) if c["kind"] == "red" else (64, enc)
            o["r"] = {"shape": w["r"]["shape"], "dt": w["r"].get("dt", ""), "runs": runs(w["r"], s, f)}
            if "first" in w["r"]:
                o["first"] = enc(w["r"]["first"][0], 64)
        if c["kind"] == "count":
            o["n"] = w["op"]["n"]
        if c["kind"] == "median":
            o["n"] = enc(w["op"]["v"], 2)
        if c["kind"] == "file":
            o["bytes"] = os.path.getsize(c["path"]) if os.path.exists(c["path"]) else -1
            if os.path.exists(c["path"]):
                os.remove(c["path"])
    r["obs"] = o
    return r


def corrupt(r):
    o = r["obs"]
    if o["exc"]:
        return None
    if "n" in o:
        o["n"] += 1
    elif "r" in o and o["r"]["runs"]:
        x = o["r"]["runs"][-1]
        x["v"] += 64 if r["kind"] != "red" else 500
    return r


def check(run, family, gen, count):
    run.conform(family, "RunsCheck", [gen(run.rng) for _ in range(count)], observe, corrupt=corrupt, case_timeout=60,
                rule="arrays of 5000 to 131072 elements in a few runs of equal elements, also as slices")
