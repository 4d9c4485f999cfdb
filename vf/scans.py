"""Filterbank files and scan histories for replay."""
import os, struct
from vf.core import vec, enc, exc_of, BADNUM


def near(v, scale=1, tol=1e-3):
    """The integer scale*v, if v is that within tol; BADNUM otherwise."""
    if v is None or isinstance(v, str):
        return BADNUM
    x = v * scale
    if x != x or abs(x) >= 2e9 or abs(x - round(x)) > tol:
        return BADNUM
    return int(round(x))


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


NAMES = ["Voyager1", "HIP_99427", "J0835-4510", "x"]


class File:
    """A source as written, and as the specification sees it."""

    def __init__(self, rng, g, path, values=True, opts=None, name=None, fch1=None, tstart=None, sparse=False):
        self.g, self.path = g, path
        nt, nf = g["nt"], g["nf"]
        self.kind = g["kind"]
        self.floatattr = self.kind == "h5" and rng.random() < 0.2
        fix = f32 if self.floatattr else (lambda v: v)
        self.foff = fix(g["foff"] * 1e-9)
        self.fch1 = fix(fch1 if fch1 is not None else rng.choice([1500.0, 8421.0, 1926.5, 4000.25]))
        self.tsamp = fix(g["tsamp"] * 1e-6)
        self.tstart = fix(tstart if tstart is not None else rng.choice([59000.5, 57650.25, 60000.0]))
        self.src = name or rng.choice(NAMES)
        self.raj, self.dej = (rng.choice([0.0, 17.25, 7.5]), rng.choice([12.5, -8.25])) if self.kind == "h5" else (7.25, 11.5)
        self.tel = rng.choice([6, 4, 64]) if self.kind == "h5" else 6
        self.data = [] if sparse else [[rng.randint(-40, 40) for _ in range(nf)] for _ in range(nt)]
        self.mask = [] if sparse else [[0] * nf if self.kind == "h5" else [rng.choice([0, 0, 1, 2, 16]) for _ in range(nf)] for _ in range(nt)]
        self.opts = opts if opts is not None else sorted(
            o for o in ("nchans", "nifs", "nbits", "machine", "dtype", "az", "za", "class", "fixedsrc", "int32") if rng.random() < 0.5)
        if self.floatattr:
            self.opts.append("floatattr")
        if self.kind == "h5" and "nchans" in self.opts and nt != nf and rng.random() < 0.15:
            self.opts.append("swap")
        self.sparse = sparse

    def cmds(self, tag):
        """Commands that make the source; a scan over it is opened with open()."""
        g = self.g
        if self.kind == "h5":
            flat = [x for row in self.data for x in row]
            return ["h5w %s %d %d %r %r %r %r %s %r %r %d %s %s" % (
                self.path, g["nt"], g["nf"], self.fch1, self.foff, self.tsamp, self.tstart, self.src, self.raj, self.dej, self.tel,
                ",".join(self.opts) or "none", vec(flat))]
        out = []
        for i in range(g["nf"] // g["fine"]):
            a, b = i * g["fine"], (i + 1) * g["fine"]
            out.append("new %sd%d f 2 %d %d %s" % (tag, i, g["nt"], g["fine"], vec([x for r in self.data for x in r[a:b]])))
            out.append("new %sm%d b 2 %d %d %s" % (tag, i, g["nt"], g["fine"], vec([x for r in self.mask for x in r[a:b]])))
            out.append("cc %sc%d %sd%d %sm%d %r %r %r %r %d %s" % (tag, i, tag, i, tag, i, self.fch1 + self.foff * a, self.foff,
                                                                self.tsamp, self.tstart, g["num0"] + i, self.src))
        return out

    def open(self, name, tag, fine):
        if self.kind == "h5":
            return "scanh5 %s %s %d" % (name, self.path, fine)
        n = self.g["nf"] // self.g["fine"]
        return "scanmap %s %d %s" % (name, n, " ".join("%sc%d" % (tag, i) for i in range(n)))

    def common(self):
        return [self.src, enc(self.raj, 1024), enc(self.dej, 1024), self.tel, near(self.tsamp, 1e6), enc(self.tstart, 1024), 1000]

    def md(self):
        """metadata of a channel"""
        if self.kind == "h5":
            return self.common() + [20 if "machine" in self.opts else None, 1536 if "az" in self.opts else None, 2560 if "za" in self.opts else None, 1]
        return self.common() + [20, 512, 256, 1]

    def smd(self):
        """metadata of a scan"""
        m = self.common() + [near(self.g["nt"] * self.tsamp, 1e6)]
        return m + self.md()[7:10] if self.kind == "h5" else m + [20]

    def record(self):
        g = self.g
        return {"kind": self.kind, "nf": g["nf"], "fine": g["fine"], "nt": g["nt"], "foff": g["foff"], "tsamp": g["tsamp"], "num0": g["num0"],
                "md": text(self.md()), "smd": text(self.smd()), "data": self.data, "mask": self.mask}

    # -- observations
    def see_common(self, o):
        return [o["src"], enc(o["raj"], 1024), enc(o["dej"], 1024), o["tel"], near(o["tsamp"], 1e6), enc(o["tstart"], 1024),
                near(o["foff"] / self.foff, 1000)]

    def see_channel(self, o, log, full):
        if o["null"]:
            return {"null": True}
        opt = lambda v, s: None if v is None else enc(v, s)
        ch = {"null": False, "num": o["num"], "first": near((o["fch1"] - self.fch1) / self.foff, 1), "nchans": o["nchans"], "nt": o["nt"],
              "md": text(self.see_common(o) + [opt(o["machine"], 1), opt(o["az"], 1024), opt(o["za"], 1024), o["nifs"]]),
              "log": [[t.rsplit(":", 1)[0], int(t.rsplit(":", 1)[1])] for t in log], "full": full}
        if full:
            for f in ("data", "mask"):
                a = o[f]
                if len(a["shape"]) != 2:
                    raise ValueError("channel is not two-dimensional")
                n = a["shape"][1]
                ch[f] = [[enc(x) for x in a["v"][r * n:(r + 1) * n]] for r in range(a["shape"][0])]
        return ch

    def see_info(self, o):
        opt = lambda v, s: None if v is None else enc(v, s)
        m = self.see_common(o) + [near(o["dur"], 1e6)] + ([opt(o["machine"], 1), opt(o["az"], 1024), opt(o["za"], 1024)] if self.kind == "h5" else [opt(o["machine"], 1)])
        return {"first": near((o["fch1"] - self.fch1) / self.foff, 1), "ncoarse": o["ncoarse"], "nchans": o["nchans"], "nt": o["nt"],
                "md": text(self.md()), "smd": text(m)}


def text(v):
    """A metadata tuple as one string (its fields have different types)."""
    return " ".join("-" if x is None else str(x) for x in v)


def history_case(rng, hist, scratch, n):
    """A behaviour of Scan made concrete."""
    files = [File(rng, g, os.path.join(scratch, "f%d-%d.h5" % (n, j))) for j, g in enumerate(hist[0]["srcs"])]
    cmds, plan = [], []
    for j, f in enumerate(files):
        for c in f.cmds("s%d" % j):
            cmds.append(c)
            plan.append(("setup", None, None))
    where = {}
    for c in hist[1:]:
        op, a, d = c["op"], c["a"], c["d"]
        if op == "open":
            where[d] = files[c["n"] - 1]
            x = where[d].open(d, "s%d" % (c["n"] - 1), c["m"])
        elif op == "handle":
            where[d] = where[a]
            x = "scanhandle %s %s" % (d, a)
        elif op == "slice":
            where[d] = where[a]
            x = "scanslice %s %s %d %d" % (d, a, c["n"], c["m"])
        else:
            x = {"block": "", "read": "scanread %(a)s %(n)d 1", "peek": "scanpeek %(a)s %(n)d 1", "freq": "scanfreq", "info": "scaninfo %(a)s",
                 "device": "scandevice %(a)s", "push": "scanpush %(a)s", "drop": "scandrop %(a)s", "tf": "scantf"}[op] % c
            if op == "tf":
                x = "scantf %s %s %d %s" % (a, c["t"]["kind"], c["t"]["arg"], c["t"]["tag"])
        if op == "block":
            src, l = files[c["n"] - 1], c["l"]
            x = "h5read %s %s %s" % (src.path, rng.choice(["0", "3 0 0 0"]) if l[:2] == [0, 0] else "3 %d 0 %d" % (l[0], l[1]), "0" if l[2] == -1 else "3 %d 1 %d" % (l[2], l[3]))
        else:
            src = where.get(d if op in ("open", "handle", "slice") else a)
        if op == "freq":
            x = "scanfreqrel %s %d" % (a, c["n"])
        cmds.append(x)
        plan.append(("step", c, src))
        if op in ("read", "peek"):
            cmds.append("log")
            plan.append(("log", None, None))
    return {"cmds": cmds, "plan": plan, "files": files}


def observe(case, resp):
    steps, i = [], 0
    plan = case["plan"]
    while i < len(plan):
        kind, c, f = plan[i]
        r = resp[i]
        i += 1
        if kind != "step":
            if not r["ok"]:
                raise ValueError("setup failed: %s" % r)
            continue
        e = {"c": c, "exc": exc_of(r)}
        if c["op"] in ("read", "peek"):
            log = resp[i]["log"]
            i += 1
            if r["ok"]:
                e["ch"] = f.see_channel(r, log, True)
        if r["ok"] and c["op"] == "freq":
            e["cc"] = r["cc"]
        if r["ok"] and c["op"] == "block":
            for what, a in (("block", r["data"]), ("marks", r["mask"])):
                if len(a["shape"]) != 2:
                    raise ValueError("block is not two-dimensional")
                e[what] = [[enc(x) for x in a["v"][q * a["shape"][1]:(q + 1) * a["shape"][1]]] for q in range(a["shape"][0])]
        if r["ok"] and c["op"] == "info":
            e["info"] = f.see_info(r)
        steps.append(e)
    return {"srcs": [f.record() for f in case["files"]], "steps": steps}


def corrupt(r):
    for s in reversed(r["steps"]):
        if s.get("ch") and not s["ch"]["null"]:
            s["ch"]["data"][-1][0] += 1
            return r
        if s.get("block"):
            s["block"][-1][-1] += 1
            return r
        if "cc" in s:
            s["cc"] += 1
            return r
        if "info" in s:
            s["info"]["first"] += 1
            return r
    return None
