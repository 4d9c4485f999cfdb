"""P20: histories of objects written to result files and read back."""
import os, struct
from vf.core import exc_of, vec
from vf.levels import Plan

NAMES = ["Voyager1", "J0835-4510", "Voyager1", "", "x"]
KINDS = ("hits", "events", "cc", "scan", "target", "cadence")


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def pool_hit(rng, n):
    """The n-th hit of a pool: any values that the file format can hold."""
    big = rng.random() < 0.3
    i32 = lambda: rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randint(-2 ** 31, 2 ** 31 - 1)]) if big else rng.randint(0, 1 << 20)
    f64 = lambda: rng.choice([0.0, -1.5, 1e-300, 1.7e308, rng.uniform(-1e6, 1e6), 1 / 3]) if big else rng.uniform(0, 9000)
    flt = lambda: f32(rng.choice([0.0, -2.5, 1e-30, 3e38, rng.uniform(-1e6, 1e6)])) if big else f32(rng.uniform(0, 500))
    t0 = rng.uniform(57000, 60000) * 86400 + n
    return {"idx": i32(), "freq": f64(), "t0": t0, "dur": flt(), "rate": i32(), "drift": f64(), "power": flt(), "span": i32(), "snr": flt(), "bw": flt(),
            "binw": rng.randint(0, 1 << 24), "cc": i32(), "rfi": {str(rng.choice([1, 2, 4])): rng.randint(1, 99)}}


def token(h):
    return "%d %r %r %r %d %r %r %d %r %r %d %d 1 %s %d" % (h["idx"], h["freq"], h["t0"], h["dur"], h["rate"], h["drift"], h["power"], h["span"], h["snr"],
                                                          h["bw"], h["binw"], h["cc"], *list(h["rfi"].items())[0])


def same(a, b, fields):
    return all(isinstance(a[f], str) == isinstance(b[f], str) and a[f] == b[f] for f in fields)


def seen_rfi(h, p):
    """Whether a hit that is p carries its flag counts; None if it is not p."""
    if same(h, p, [f for f in p if f != "rfi"]):
        got = {k: v for k, v in h["rfi"].items() if v}
        if got in ({}, p["rfi"]):
            return got != {}


def seen_hits(hits, pool):
    """The hits of the specification in a list: each stands for one hit or for a block of hits that stay together."""
    out, i = [], 0
    while i < len(hits):
        for n, block in enumerate(pool):
            got = [seen_rfi(h, p) for h, p in zip(hits[i:i + len(block)], block)]
            if len(got) == len(block) and None not in got and len(set(got)) == 1:
                out.append({"id": n + 1, "rfi": got[0]})
                i += len(block)
                break
        else:
            out.append({"id": 0, "rfi": False})
            i += 1
    return out


MD = ("foff", "nt", "src", "raj", "dej", "tel", "tsamp", "tstart")
STORED = {"machine": 0, "nbits": 32, "nifs": 0, "dtype": 1, "az": 0, "za": 0}


def seen_chan(r, md, hits, pool):
    for s, m in enumerate(md):
        if same(r, m, MD) and r["nchans"] == m["fine"]:
            i = r["num"] - m["num0"]
            if r["fch1"] != m["fch1"] + i * m["fine"] * m["foff"]:
                raise ValueError("channel %d of source %d starts at %r" % (i, s + 1, r["fch1"]))
            extra = {f: r[f] for f in STORED}
            if extra not in (m["extra"], STORED):
                raise ValueError("extra metadata %r" % extra)
            if hits["ok"]:
                has, l = True, seen_hits(hits["hits"], pool)
            elif hits["exc"].endswith("logic_error"):
                has, l = False, []
            else:
                raise ValueError("reading the hits failed: %s" % hits)
            return {"s": s + 1, "i": i, "x": extra != STORED, "has": has, "hits": l}
    raise ValueError("metadata of no source: %r" % r)


def seen_scan(r, chs, md):
    for s, m in enumerate(md):
        if same(r, m, MD):
            width = m["fine"] * m["foff"]
            start = round((r["fch1"] - m["fch1"]) / width)
            if r["fch1"] != m["fch1"] + start * width or r["nchans"] != m["fine"] * len(chs) or r["ncoarse"] != len(chs) or r["dur"] != r["nt"] * r["tsamp"]:
                raise ValueError("scan of source %d: %r" % (s + 1, r))
            if r["machine"] not in (m["smachine"], 0):
                raise ValueError("machine of source %d: %r" % (s + 1, r))
            return {"s": s + 1, "start": start, "x": r["machine"] == m["smachine"], "chs": chs}
    raise ValueError("metadata of no source: %r" % r)


class Shapes:
    """What every object of a history consists of, to know what to read: hits/events/cc None, scan n, target [n..], cadence [[n..]..]."""

    def __init__(self):
        self.ob, self.file = {}, {}

    def note(self, c):
        op, d, ob = c["op"], c["d"], self.ob
        if op in ("hits", "events", "cc"):
            ob[d] = (op, None)
        elif op in ("scan", "h5scan"):
            ob[d] = ("scan", len(c["ll"]))
        elif op == "slice":
            ob[d] = ("scan", c["m"])
        elif op in ("target", "cadence"):
            ob[d] = (op, [ob[x][1] for x in c["l"]])
        elif op == "state":
            ob[d] = ("hits", None)
        elif op == "pick":
            kind, x = ob[c["a"]]
            ob[d] = {"scan": ("cc", None), "target": ("scan", kind != "scan" and x[c["n"] - 1]), "cadence": ("target", kind != "scan" and x[c["n"] - 1])}[kind]
        elif op == "save" and c["n"]:
            self.file[c["n"]] = ob[c["a"]]
        elif op == "load" and c["n"] in self.file:
            ob[d] = self.file[c["n"]]


def read_cmds(kind, shape, name):
    if kind == "hits":
        return ["hget " + name]
    if kind == "events":
        return ["evget " + name]
    if kind == "cc":
        return ["ccinfo " + name, "cchits " + name]
    if kind == "scan":
        return ["scaninfo " + name] + [x for i in range(shape) for x in ("scanread %s %d 0" % (name, i), "cchits last")]
    if kind == "target":
        return ["tname " + name] + [x for i, n in enumerate(shape) for x in ["tscan _s %s %d" % (name, i)] + read_cmds("scan", n, "_s")]
    return ["kcount " + name] + [x for i, n in enumerate(shape) for x in ["ktarget _t %s %d" % (name, i)] + read_cmds("target", n, "_t")]


def read_value(kind, shape, rs, md, pool):
    """The value of an object from the responses (consumed) to read_cmds."""
    r = rs.pop(0)
    if not r["ok"]:
        raise ValueError("reading %s: %s" % (kind, r))
    if kind == "hits":
        return seen_hits(r["hits"], pool)
    if kind == "events":
        return [seen_hits(e["hits"], pool) for e in r["events"]]
    if kind == "cc":
        return seen_chan(r, md, rs.pop(0), pool)
    if kind == "scan":
        chs = []
        for _ in range(shape):
            info, hits = rs.pop(0), rs.pop(0)
            if not info["ok"] or info["null"]:
                raise ValueError("reading a channel: %s" % info)
            chs.append(seen_chan(info, md, hits, pool))
        return seen_scan(r, chs, md)
    if kind == "target":
        if r["n"] != len(shape):
            raise ValueError("%d scans, not %d" % (r["n"], len(shape)))
        return {"name": r["name"], "scans": [(rs.pop(0), read_value("scan", n, rs, md, pool))[1] for n in shape]}
    if r["n"] != [len(x) for x in shape]:
        raise ValueError("scans of targets: %r" % r["n"])
    return [(rs.pop(0), read_value("target", x, rs, md, pool))[1] for x in shape]


def case(rng, hist, scratch, tag):
    plan, shapes = Plan(), Shapes()
    many = rng.choice([40, 140, 300, 1100]) if rng.random() < 0.04 else 0
    pool = [[pool_hit(rng, 1000 * n + i) for i in range(rng.choice([1, many]) if many else 1)] for n in range(9)]
    md = []
    for s, name in enumerate(NAMES):
        h5 = s == len(NAMES) - 1
        m = {"fch1": 1000.0 + rng.randint(0, 9000) / 4, "foff": rng.choice([-1, 1]) * rng.randint(1, 4000) / 2 ** 20, "fine": rng.choice([1, 4, 64, 65536, 1 << 20]) if not h5 else 4,
             "nt": rng.choice([1, 16, 279]) if not h5 else 2, "src": name, "raj": rng.uniform(0, 24), "dej": rng.uniform(-90, 90), "tel": rng.choice([0, 6, 64, -1]),
             "tsamp": rng.choice([18.253611008, 1 / 3, 0.5]), "tstart": 57000.0 + s + rng.random() * 0.9, "num0": rng.choice([0, 0, 3, 500]) if not h5 else 0,
             "smachine": 20 if not h5 else None}
        m["extra"] = {"machine": 20, "nbits": 32, "nifs": 1, "dtype": 1, "az": 0, "za": 0} if not h5 else \
            {"machine": None, "nbits": 32, "nifs": 1, "dtype": 1, "az": None, "za": None}
        md.append(m)
        if h5:
            path = os.path.join(scratch, "%s.h5" % tag)
            plan.setup("h5w %s 2 12 %r %r %r %r %s %r %r %d class %s" % (path, m["fch1"], m["foff"], m["tsamp"], m["tstart"], name, m["raj"], m["dej"], m["tel"], vec([0] * 24)))
    hl = lambda ids: "%d %s" % (sum(len(pool[i - 1]) for i in ids), " ".join(token(h) for i in ids for h in pool[i - 1]))
    ext = rng.choice(["capnp", "cp", "dat", "bin"])
    path = lambda n: os.path.join(scratch, "%s-%d.%s" % (tag, n, ext)) if n else os.path.join(scratch, "nowhere", tag)

    for n in (1, 2, 3):
        plan.setup("unlink " + path(n))

    def chan(name, s, i, has, ids):
        m = md[s - 1]
        out = ["ccmd %s %r %r %d %d 1 %r %r %d %s %r %r %d" % (name, m["fch1"] + i * m["fine"] * m["foff"], m["foff"], m["fine"], m["nt"], m["tsamp"], m["tstart"],
                                                              m["num0"] + i, m["src"] or "_", m["raj"], m["dej"], m["tel"])]
        if has:
            out.append("%s %s %s" % (rng.choice(["ccsethits", "ccsethits", "ccsethitsfn"]), name, hl(ids)))
        return out

    def emit(c):
        op, d, a, n = c["op"], c["d"], c["a"], c["n"]
        if op == "hits":
            cmds = ["hlist %s %s" % (d, hl(c["l"]))]
        elif op == "events":
            cmds = ["evlist %s %d %s" % (d, len(c["ll"]), " ".join(hl(x) for x in c["ll"]))]
        elif op == "cc":
            cmds = chan(d, c["s"], n, c["m"] == 0, c["l"])
        elif op == "scan":
            cmds = [x for i, ids in enumerate(c["ll"]) for x in chan("%s_%d" % (d, i), c["s"], i, i + 1 != c["m"], ids)]
            cmds.append("scanmap %s %d %s" % (d, len(c["ll"]), " ".join("%s_%d" % (d, i) for i in range(len(c["ll"])))))
        elif op == "h5scan":
            cmds = ["hlist %s_l%d %s" % (d, i, hl(c["ll"][i] if i < len(c["ll"]) else [])) for i in range(3)]
            cmds += ["scanh5 %s %s 4" % (d, os.path.join(scratch, "%s.h5" % tag)), "scanslice %s %s 0 %d" % (d, d, len(c["ll"])), "scanhitsby %s %s_l" % (d, d)]
        elif op == "slice":
            cmds = ["scanslice %s %s %d %d" % (d, a, n, c["m"])]
        elif op in ("target", "cadence"):
            cmds = ["%s %s %d %s" % (op, d, len(c["l"]), " ".join(c["l"]))]
        elif op == "pick":
            cmds = {"cadence": ["ktarget %s %s %d" % (d, a, n - 1)], "target": ["tscan %s %s %d" % (d, a, n - 1)],
                    "scan": ["scanread %s %d 0" % (a, n - 1), "cchandle %s last" % d]}[shapes.ob[a][0]]
        elif op == "state":
            cmds = ["hstate %s %s" % (d, a)]
        elif op == "save":
            kind = shapes.ob[a][0]
            cmds = ["save %s %s %s" % ("vhits" if kind == "hits" and c["m"] else kind, a, path(n))]
        elif op == "load":
            cmds = ["load %s %s %s" % (c["kind"], d, path(n))]
        else:
            cmds = read_cmds(*shapes.ob[a], a)
        shapes.note(c)
        plan.step(c, cmds)
        kinds.append(shapes.ob.get(a))
    kinds = [None] * len(plan)
    for c in hist:
        emit(c)
    base = dict(hist[0], d="", a="", n=0, m=0, l=[], ll=[], s=1, kind="")
    good = {c["d"] for c in hist if c["d"] and c["ok"]}  # an object whose reading failed is not there
    for name in sorted(good):
        if rng.random() < 0.6:
            emit(dict(base, op="get", a=name))
    return {"cmds": plan.cmds, "plan": list(plan), "kinds": kinds, "md": md, "pool": pool}


def observe(case, resp):
    steps, i = [], 0
    for (c, n), kind in zip(case["plan"], case["kinds"]):
        rs, i = list(resp[i:i + n]), i + n
        if c is None:
            if not rs[0]["ok"]:
                raise ValueError("setup failed: %s" % rs[0])
            continue
        if c["op"] == "get":
            e = {"exc": "", "kind": kind[0], "v": read_value(*kind, rs, case["md"], case["pool"])}
        else:
            bad = [exc_of(r) for r in rs if exc_of(r)]
            e = {"exc": bad[0] if bad else ""}
        steps.append(dict(e, c=c))
    return {"names": NAMES, "steps": steps}


def corrupt(r):
    gets = [s for s in r["steps"] if s["c"]["op"] == "get" and s["kind"] in ("hits", "cc", "events") and s["v"]]
    if not gets:
        return None
    s = gets[-1]
    if s["kind"] == "cc":
        s["v"]["hits"] = s["v"]["hits"][1:] + [{"id": 3, "rfi": True}] * 2
    else:
        s["v"] = s["v"][1:]
    return r


def check(run):
    run.design("StoreMC", consts={"MaxLevel": run.n(4, 5)})
    for depth, num in run.n([(10, 60), (24, 60)], [(10, 1500), (16, 1000), (30, 800)]):
        hists = run.behaviours("StoreGen", num=num, depth=depth, consts={"Depth": depth})
        cases = [case(run.rng, h, run.scratch, "f%d_%d" % (depth, j)) for j, h in enumerate(hists)]
        run.conform("files-%d" % depth, "StoreTrace", cases, observe, corrupt=corrupt,
                    rule="random histories of %d calls that make, take apart, write, overwrite and read objects of all kinds, from TLC simulation of Store" % depth)
