"""P11: flaggers (and, with P12, noise estimates) over histories of channels, scans, targets and cadences."""
from vf.arrays import view, in_units, UNITS
from vf.levels import *


def spectrogram(rng, mode):
    """Dimensions, accumulations and contents of the sources of one history."""
    if mode == "auto":  # enough samples for one of them to lie ten deviations off
        nt, nf = rng.choice([(6, 20), (5, 24), (12, 12), (4, 33)])
    else:
        nt, nf = rng.choice([2, 3, 4, 5, 8]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 16])
        while nt * nf > 60:
            nf -= 1
    n = rng.choice([1, 1, 2, 3, 4])
    srcs = []
    for _ in range(3):
        if mode == "noise":
            v = [rng.choice([100000, 90000, 50, 70000]) if rng.random() < 0.2 else rng.randint(-20, 49) for _ in range(nt * nf)]
        elif mode == "auto":
            v = [rng.choice([3, 3, 3, 3, 4]) for _ in range(nt * nf)]
            for _ in range(rng.choice([0, 1, 1, 2])):
                v[rng.randrange(nt * nf)] = rng.choice([9, 30, 36])
        else:
            v = [0] * (nt * nf)
            for f in range(nf):
                style = rng.choice("fnnsn")
                mean = rng.choice([4, 6, 8, 12])
                for t in range(nt):
                    v[t * nf + f] = (mean + rng.choice([0, 0, 0, 1]) if style == "f" else max(0, round(rng.gauss(mean, mean / (n ** 0.5)))) if style == "n"
                                     else rng.choice([0, 1, 1, 1, 20]))
            for _ in range(rng.choice([0, 0, 1, 3])):
                v[rng.randrange(nt * nf)] = rng.choice([30, 25, 1, 0])
            fit(v, 400, 5000000)
        if mode != "noise" and rng.random() < 0.08:  # nothing but one value, as in a dead channel, or one sample that is different
            v = [rng.choice([0, 1, 7, 12])] * (nt * nf)
            if rng.random() < 0.5:
                v[rng.randrange(nt * nf)] = rng.choice([0, 3, 30])
        if mode == "auto":
            fit(v, 1600, 1200000)
        mask = [rng.choice([64, 128, 8]) if rng.random() < 0.15 else 0 for _ in range(nt * nf)] if rng.random() < 0.4 else [0] * (nt * nf)
        if rng.random() < 0.04:
            mask = [64] * (nt * nf)
        if mode == "noise":
            mask = [64 if x > 50 else m for x, m in zip(v, mask)]
        srcs.append({"nt": nt, "nf": nf, "n": n, "data": v, "mask": mask})
    return srcs


def fit(v, q, lim):
    """Shrink values until the exact arithmetic of the specification fits in 32 bits."""
    while True:
        n, s = len(v), sum(v)
        if n * sum(x * x for x in v) - s * s < lim and max(abs(n * x - s) for x in v) < 11000:
            return
        v[:] = [int(x * 0.8) for x in v]


def case(rng, hist, mode, masks=True):
    srcs = spectrogram(rng, mode)
    if not masks:
        srcs = [dict(s, mask=[0] * len(s["mask"])) for s in srcs]
    plan, objs = Plan(), Objects()
    sign, frac, tsamp = rng.choice([1, -1]), rng.choice([0, 0, 0.25, -0.3]), rng.choice([1.0, 0.5, 2.0])
    hz = (srcs[0]["n"] + frac) / tsamp  # width of a fine channel: n accumulations per spectrum
    for j, s in enumerate(srcs):
        plan.setup("new sd%d f 2 %d %d %s" % (j + 1, s["nt"], s["nf"], vec(s["data"])))
        plan.setup("new sm%d b 2 %d %d %s" % (j + 1, s["nt"], s["nf"], vec(s["mask"])))
    for c in hist:
        emit(plan, objs, c, sign * hz * 1e-6, tsamp)
    # read back what is left
    rest = [(n, lvl, p) for n in objs.shape for lvl, ps in [objs.paths(n)] for p in ps]
    rng.shuffle(rest)
    for n, lvl, p in rest[:14]:
        emit(plan, objs, {"op": "get", "d": "", "a": n, "n": 0, "l": p, "g": [], "lvl": lvl}, 0, 0)
    return {"cmds": plan.cmds, "plan": list(plan), "srcs": srcs}


def emit(plan, objs, c, foff, tsamp):
    op, d, a, g = c["op"], c["d"], c["a"], c["g"]
    lvl = objs.shape[a][0] if a in objs.shape else objs.shape[c["l"][0]][0] if op == "wrap" else "c"
    if op == "make":
        cmds = ["copy %s_d sd%d" % (d, c["n"]), "copy %s_m sm%d" % (d, c["n"]), "cc %s %s_d %s_m 1000 %s %s 60000 %d src" % (d, d, d, repr(foff), repr(tsamp), c["n"])]
    elif op == "get":
        pre, x = descend(lvl, a, c["l"])
        cmds = pre + ["ccget " + x, "ccnoise " + x]
    elif op == "handle":
        cmds = structural(c, lvl) or {"t": ["stage t rolloff %s %s 0" % (d, a)], "k": ["stage k rolloff %s %s 0" % (d, a)]}[lvl]
    elif op in ("wrap", "pick"):
        cmds = structural(c, lvl)
    else:
        arg = {"rolloff": lambda: [g[0] / 64], "sk": lambda: [g[0] / 8, g[1] / 8, g[2] / 2], "mag": lambda: [g[0] / 2], "magauto": lambda: [],
               "sclip": lambda: [g[0], g[1] / 4, g[2] / 4], "noise": lambda: [g[0]]}[op]()
        cmds = ["stage %s %s %s %s %s" % (lvl, op, d, a, " ".join(map(fmt, arg)))]
    objs.note(c)
    plan.step(c, cmds)


def see(c, rs):
    if c["op"] != "get":
        return {"exc": first_exc(rs)}
    e = first_exc(rs[:-1])
    if e:
        return {"exc": e}
    g, n = rs[-2], rs[-1]
    noise = {"set": n["ok"], "floor": 0, "power": 0}
    if n["ok"]:
        noise = {"set": True, "floor": rnd(n["floor"], 1000), "power": rnd(n["power"], 100)}
    elif exc_of(n) != "logic_error":
        return {"exc": exc_of(n)}
    return {"exc": "", "data": [enc(x) for x in g["data"]["v"]], "mask": [enc(x) for x in g["mask"]["v"]], "noise": noise}


def observe(case, resp):
    return {"srcs": case["srcs"], "steps": steps(case["plan"], resp, see)}


def corrupt(r):
    for s in r["steps"]:
        if "mask" in s and s["c"]["lvl"] == "c":
            s["mask"][-1] += 64
            return r
    return None


PARAMS = {"sk": lambda r: (lambda lo: [lo, lo + r.choice([1, 4, 10, 24]), r.choice([1, 2, 2, 4])])(r.choice([1, 2, 4, 6, 8])),
          "mag": lambda r: [r.choice([-3, 1, 5, 8, 11, 15, 24, 40])], "noise": lambda r: [0],
          "sclip": lambda r: [r.randint(0, 5), r.choice([2, 4, 5, 7, 10, 12, 16]), r.choice([2, 4, 5, 7, 10, 12, 16])]}


def array_case(rng, ops):
    src = dict(spectrogram(rng, "all")[0])
    src["mask"] = [0] * len(src["data"])
    op = rng.choice(ops)
    g = PARAMS[op](rng)
    cmds = view(rng, "a", "f", [src["nt"], src["nf"]], src["data"], junk=lambda: rng.choice([500, -70, 3]))[0]
    cmds.append({"sk": lambda: "aflag sk r a %d %d %s %s %s" % (src["n"], src["nt"], fmt(g[2] / 2), fmt(g[0] / 8), fmt(g[1] / 8)),
                 "mag": lambda: "aflag mag r a %s" % fmt(g[0] / 2), "sclip": lambda: "aflag sclip r a %d %s %s" % (g[0], fmt(g[1] / 4), fmt(g[2] / 4)),
                 "noise": lambda: "anoise a %d" % rng.randint(0, 1)}[op]())
    cmds += ["get r", "get a"] if op != "noise" else ["get a"]
    return {"cmds": cmds, "src": src, "op": op, "g": g}


def array_observe(c, resp):
    op = c["op"]
    call = resp[-2] if op == "noise" else resp[-3]
    o = {"exc": exc_of(call), "after": [enc(x) for x in resp[-1]["a"]["v"]], "floor": 0, "power": 0, "shape": [], "v": []}
    if call["ok"] and op == "noise":
        o.update(floor=rnd(call["floor"], 1000), power=rnd(call["power"], 100))
    elif call["ok"]:
        o.update(shape=resp[-2]["a"]["shape"], v=[enc(x) for x in resp[-2]["a"]["v"]])
    return {"src": c["src"], "op": op, "g": c["g"], "obs": o}


def estimate_case(rng):
    """The kurtosis estimate itself, of an array or of a channel."""
    src = dict(spectrogram(rng, "all")[0])
    src["mask"] = [0] * len(src["data"])
    d2 = rng.choice([1, 2, 2, 4, 4, 5])
    cmds = view(rng, "a", "f", [src["nt"], src["nf"]], src["data"], junk=lambda: rng.choice([500, -70, 3]))[0]
    if rng.random() < 0.4:
        cmds.append("ask a %d %d %s" % (src["n"], src["nt"], fmt(d2 / 2)))
    else:
        tsamp, frac = rng.choice([1.0, 0.5, 2.0, 18.25]), rng.choice([0, 0.25, -0.3])
        cmds += ["new m b 2 %d %d %s" % (src["nt"], src["nf"], vec(src["mask"])),
                 "cc c a m 1000 %r %r 60000 1 src" % (rng.choice([1, -1]) * (src["n"] + frac) / tsamp * 1e-6, tsamp), "ccsk c %s" % fmt(d2 / 2)]
    cmds.append("get a")
    return {"cmds": cmds, "src": src, "op": "estimate", "g": [d2]}


def estimate_observe(c, resp):
    call = resp[-2]
    o = {"exc": exc_of(call), "after": [enc(x) for x in resp[-1]["a"]["v"]], "shape": [], "v": []}
    if call["ok"]:
        o.update(shape=call["sk"]["shape"], v=[rnd(x, 800) for x in call["sk"]["v"]])
    return {"src": c["src"], "op": "estimate", "g": c["g"], "obs": o}


def estimate_corrupt(r):
    v = r["obs"]["v"]
    at = [i for i, x in enumerate(v) if abs(x) < 10000]
    if at:
        v[at[0]] += 400
        return r
    return None


def array_corrupt(r):
    if r["op"] == "noise":
        r["obs"]["floor"] += 5
    elif r["op"] == "mag" and r["obs"]["v"]:
        r["obs"]["v"][-1] ^= 16
    else:
        return None
    return r


def histories(run, families):
    for mode, depth, num, *units in families:
        hs = run.behaviours("FlagsGen", num=num, depth=depth, consts={"Depth": depth, "Mode": '"%s"' % {"auto": "all"}.get(mode, mode)})
        run.conform("%s, depth %d" % ({"all": "flagging", "ladder": "flagging scans, targets and cadences", "auto": "automatic limits", "noise": "huge interference"}[mode], depth) + ", powers of any magnitude" * bool(units), "FlagsTrace",
                    [in_units(run.rng, case(run.rng, h, mode), *units) if units else case(run.rng, h, mode) for h in hs], observe, corrupt=corrupt,
                    rule="behaviours of Flags generated by TLC simulation over seeded random spectrograms; every object read back")


def check(run):
    run.design("FlagsMC", consts={"Vals": run.n("{0, 3}", "{0, 1, 3}")})
    if not run.quick:
        run.design("FlagsMC", consts={"MaxLevel": 4, "Vals": "{3}"}, timeout=1500)
    histories(run, [("all", 12, run.n(250, 4000)), ("all", 22, run.n(150, 2500)), ("ladder", 8, run.n(130, 2500)), ("auto", 10, run.n(60, 600)), ("all", 12, run.n(100, 1500), UNITS)])
    run.conform("flaggers on arrays", "FlagsCheck", [array_case(run.rng, ["sk", "mag", "sclip"]) for _ in range(run.n(1000, 12000))],
                array_observe, corrupt=array_corrupt, rule="seeded random spectrograms in every memory layout")
    run.conform("kurtosis estimates", "FlagsCheck", [estimate_case(run.rng) for _ in range(run.n(500, 5000))], estimate_observe, corrupt=estimate_corrupt,
                rule="seeded random spectrograms in every memory layout, as arrays and as channels")
