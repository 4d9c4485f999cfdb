"""P06: raw files and creators."""
import os
from vf import large
from vf.arrays import *
from vf.core import vec, enc, exc_of
from vf.props.p02 import txt


def gen_file(rng, scratch, i):
    shape = shapes(rng, 3, 90)
    v = [rng.randint(-800, 800) for _ in range(numel(shape))]
    c = Case(kind="file", op="file", path=os.path.join(scratch, "raw-%d" % i))
    c["A"] = (shape, "f", v)
    for cmd in view(rng, "a", "f", shape, [txt(x) for x in v])[0]:
        c.do(cmd)
    c.do("write a %s" % c["path"], "w").do("read r %s f" % c["path"], "op").do("get r", "r")
    finish_operands(c, "a", 8)
    return c


def gen_make(rng):
    kind = rng.choice(["arange", "arange", "linspace", "const"])
    c = Case(kind=kind, op=kind)
    if kind == "arange":
        dt = rng.choice("fdiuhHlLbB")
        vt = rng.choice("fi") if dt in "fd" else "i"
        u = 8 if vt == "i" else rng.choice([1, 2, 4, 8])
        c["start"] = u * rng.randint(0, 12)
        c["step"] = u * rng.randint(1, 4)
        c["stop"] = c["start"] + u * rng.randint(0, 25)
        if dt in "fdiuhHlL" and rng.random() < 0.05:
            c["step"], c["stop"] = u, c["start"] + u * rng.choice([255, 256, 257, 300, 1000])
        if dt in "fdilhB" and rng.random() < 0.4 and vt in "fi":
            c["start"], c["stop"] = -c["start"], -c["start"] + (c["stop"] - c["start"])
        if dt in "fd" and rng.random() < 0.25:
            c["step"], c["stop"] = -c["step"], 2 * c["start"] - c["stop"]
        c["dt"] = dt
        c.do("arange r %s %s %s %s %s" % (dt, vt, txt(c["start"]), txt(c["stop"]), txt(c["step"])), "op")
    elif kind == "linspace":
        c["dt"] = rng.choice("fd")
        c["count"] = rng.randint(1, 40) if rng.random() < 0.95 else rng.choice([128, 255, 256, 300])
        step = rng.choice([1, 2, 4, 8, 16, -2, -8])
        # the step must be exact in single precision and a whole number of eighths
        c["start"] = rng.randint(-80, 80)
        c["stop"] = c["start"] + step * c["count"]
        c.do("linspace r %s %s %s %d" % (c["dt"], txt(c["start"]), txt(c["stop"]), c["count"]), "op")
    else:
        which = rng.choice(["zeros", "ones", "newfill"])
        c["shape"] = shapes(rng, 3, 90)
        c["dt"] = rng.choice("fiub")
        c["s"] = {"zeros": 0, "ones": 8}.get(which, 8 * rng.randint(0, 99))
        if which == "newfill":
            vt = rng.choice("fi")
            c.do("newfill r %s %s %s %s" % (c["dt"], vec(c["shape"]), vt, txt(c["s"])), "op")
        else:
            c.do("%s r %s %s" % (which, c["dt"], vec(c["shape"])), "op")
    c.do("get r", "r")
    return c


def observe(c, resp):
    w = c.responses(resp)
    rec = {f: c[f] for f in ("kind", "op", "start", "stop", "step", "count", "dt", "shape", "s") if f in c}
    obs = {"exc": exc_of(w["op"]), "r": got(w["r"], 8) if w["op"]["ok"] and w["r"]["ok"] else NONE}
    if "A" in c:
        s, d, v = c["A"]
        rec["ops"] = [{"shape": s, "dt": d, "v": v}]
        obs["after"], obs["after2"] = operands_seen(c, w, "a", 8)
        obs["bytes"] = os.path.getsize(c["path"]) if os.path.exists(c["path"]) else -1
    rec["obs"] = obs
    return rec


def corrupt(r):
    if r["obs"]["r"]["v"]:
        r["obs"]["r"]["v"][-1] += 1
        return r
    return None


def check(run):
    run.design("ArrMC", consts={"MaxDim": run.n(3, 4)})
    rng = run.rng
    run.conform("raw files", "ArrayCheck", [gen_file(rng, run.scratch, i) for i in range(run.n(800, 6000))], observe, corrupt=corrupt,
                rule="seeded random single-precision arrays and views written, read back and compared")
    run.conform("creators", "ArrayCheck", [gen_make(rng) for _ in range(run.n(1500, 12000))], observe, corrupt=corrupt,
                rule="seeded random ranges, counts, fills and types")
    large.check(run, "large arrays", lambda rng: large.files(rng, run.scratch), run.n(80, 1000))
