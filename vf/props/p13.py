"""P13: drift planes at every level, over spectrograms in every memory layout."""
from vf.arrays import view, in_units
from vf.core import exc_of, vec, fmt, enc, rnd
from vf.levels import descend, WRAP, UP


def rates(rng, nt, nf):
    """low, high, step: few rates, many kinds of slope."""
    while True:
        big = rng.choice([2, nt, nf, 2 * nt + 3, 3 * nf, 40])
        lo, step = rng.randint(-big, big), rng.choice([1, 1, 1, 2, 3, 5, nt - 1])
        n = rng.randint(1, 9)
        hi = lo + n * step + rng.randint(0, step - 1)
        if max(abs(lo), abs(hi)) <= 3 * (nt - 1) + 20:
            return lo, hi, step


def spectrogram(rng, nt, nf):
    kind = rng.random()
    if kind < 0.25:  # a drifting tone over a flat floor
        v = [1] * (nt * nf)
        s, f0 = rng.uniform(-1.5, 1.5), rng.randrange(nf)
        for t in range(nt):
            f = f0 + round(s * t)
            if 0 <= f < nf:
                v[t * nf + f] = 50
        return v
    if kind < 0.4:  # a few single samples
        v = [0] * (nt * nf)
        for _ in range(rng.randint(1, 4)):
            v[rng.randrange(nt * nf)] = rng.randint(1, 60)
        return v
    return [rng.randint(-20, 60) for _ in range(nt * nf)]


def mask(rng, n, long=False):
    kind = rng.random() / (4 if long else 1)
    if kind < 0.15:
        return [rng.choice([1, 2, 4, 7, 255])] * n
    return [rng.choice([0, 0, 1, 2, 4, 3, 5, 6, 7, 16, 32, 48, 64, 128, 255, rng.randrange(256)]) for _ in range(n)]


def case(rng, wide=False, long=False, many="", flag=False):
    """With flag: channels of files as they come, flagged by the library first (what Python can do)."""
    lvl = rng.choice(["c", "c", "s", "s", "t", "k"]) if not long and not many else "c"
    cmds, chs, names = [], [], []
    nt = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
    if long:
        nt = rng.choice([33, 64, 128, 256, 257, 300, 300])  # none with many ties
    lo, hi, step = rates(rng, nt, 16) if not long else (lambda a: (a, a + 2, 1))(rng.choice([-3, -2, -1, 0, 0, 3, nt - 2, nt + 5, -2 * nt]))
    if many == "rates":
        nt, lo, hi, step = 64, -rng.randint(130, 150), rng.randint(130, 150), 1
    elif many == "channels":
        nt, lo, hi, step = rng.choice([2, 3, 4]), rng.randint(-4, 0), rng.randint(1, 3), 1
    if wide:
        lo, hi, step = (-24, 24, 3) if nt > 4 else (-6, 6, 1)

    file = {}

    def channel(nf):
        i = len(chs)
        if flag:
            nf = file.setdefault("nf", nf)
        n = nt * nf
        c = {"nt": nt, "nf": nf, "data": spectrogram(rng, nt, nf), "mask": [0] * n if flag else mask(rng, n, long),
             "F": rng.choice([-1, 1]) * rng.randint(1, 50), "ts": rng.randint(1, 20)}
        if flag:
            c.update(F=file.setdefault("F", c["F"]), ts=file.setdefault("ts", c["ts"]))
        cmds.extend(view(rng, "d%d" % i, "f", [nt, nf], c["data"])[0])
        cmds.extend(view(rng, "m%d" % i, "b", [nt, nf], c["mask"], junk=lambda: 255)[0])
        cmds.append("cc c%d d%d m%d 1000 %s %d 60000 %d src" % (i, i, i, fmt(c["F"] / 1e6), c["ts"], i))
        chs.append(c)
        return "c%d" % i

    def build(level):
        """Name and member paths of an object of this level."""
        if level == "c":
            nf = rng.choice([1, 2]) if many == "rates" else rng.choice([255, 256, 257, 300, 520]) if many else rng.choice([40, 64]) if wide else rng.choice([1, 2, 3]) if long else rng.choice([1, 2, 3, 5, 8, 9, 12, 17])
            return channel(nf), [[]]
        low = {v: k for k, v in UP.items()}[level]
        parts, paths = [], []
        if level == "s":
            file.clear()
        for j in range(rng.choice([1, 1, 2]) if len(chs) < 4 else 1):
            n, ps = build(low)
            parts.append(n)
            paths += [[j + 1] + p for p in ps]
        name = "%s%d" % (level, len(names))
        names.append(name)
        cmds.append("%s %s %d %s" % (WRAP[low], name, len(parts), " ".join(parts)))
        return name, paths

    top, paths = build(lvl)
    seen = []
    if flag:
        for op, arg in (("rolloff", "%s" % rng.choice([0.1, 0.25])), ("sk", rng.choice(["0.5 3 2", "1 1.5 1", "-100 0.5 2"])), ("sclip", "3 2 2")):
            if rng.random() < 0.7:
                cmds.append("stage %s %s %s %s %s" % (lvl, op, top, top, arg))
        for path in paths:
            pre, x = descend(lvl, top, path)
            cmds += pre + ["ccget %s" % x]
            seen.append(len(cmds) - 1)
    p = {"desmear": rng.choice([0, 1, 1]), "lo": lo, "hi": hi, "step": step}
    cmds.append("stage %s dedrift z %s %d %d %d %d" % (lvl, top, p["desmear"], lo, hi, step))
    stage = len(cmds) - 1
    reads = []
    for path in paths:
        pre, x = descend(lvl, "z", path)
        cmds += pre + ["ccplane %s 1" % x]
        reads.append(len(cmds) - 1)
    return {"cmds": cmds, "chs": chs, "p": p, "stage": stage, "reads": reads, "seen": seen}


def read(r):
    if not r["ok"]:
        return {"exc": exc_of(r)}
    a = r["plane"]
    e = {"exc": "", "steps": r["steps"], "shape": a["shape"], "cshape": r["lo"]["shape"], "plane": [rnd(x, 4096) for x in a["v"]],
         "rates": [{"idx": q["idx"], "span": q["span"], "smear": q["smear"], "slope": rnd(q["slope"], 1000000), "hz": rnd(q["hz"], 1000)}
                   for q in r["rates"]],
         "low": [enc(x) for x in r["lo"]["v"]], "high": [enc(x) for x in r["hi"]["v"]], "roll": [enc(x) for x in r["roll"]["v"]], "hits": []}
    for n in ("hi", "roll"):
        if r[n]["shape"] != e["cshape"]:
            e["cshape"] = r[n]["shape"]
    return e


def observe(case, resp):
    for r in resp[:case["stage"]]:
        if not r["ok"]:
            raise ValueError("setup failed: %s" % r)
    if case["seen"]:
        case = dict(case, chs=[dict(c, mask=resp[i]["mask"]["v"]) for c, i in zip(case["chs"], case["seen"])])
    if not resp[case["stage"]]["ok"]:
        return {"chs": case["chs"], "p": case["p"], "obs": [{"exc": exc_of(resp[case["stage"]])}] * len(case["chs"])}
    return {"chs": case["chs"], "p": case["p"], "obs": [read(resp[i]) for i in case["reads"]]}


def corrupt(r):
    o = r["obs"][-1]
    if o["exc"]:
        return None
    if len(o["plane"]) % 2:
        o["plane"][-1] += 4096
    else:
        o["rates"][-1]["hz"] += 20
    return r


def check(run):
    run.design("DriftMC", consts={"MaxT": run.n(5, 7), "MaxF": run.n(5, 8), "MaxSpan": run.n(9, 14)})
    run.conform("drift planes", "DriftCheck", [case(run.rng) for _ in range(run.n(1500, 20000))], observe, corrupt=corrupt,
                rule="seeded random spectrograms of every level in every memory layout, random rate ranges")
    run.conform("drift planes of any magnitude", "DriftCheck", [in_units(run.rng, case(run.rng)) for _ in range(run.n(150, 2000))], observe, corrupt=corrupt,
                rule="as above, powers counted in powers of two from 2^-60 to 2^50")
    run.conform("drift planes of wide channels", "DriftCheck", [case(run.rng, True) for _ in range(run.n(30, 500))], observe, corrupt=corrupt,
                rule="as above, 40 to 64 channels and rates on both sides of zero")
    run.conform("drift planes of many rates or channels", "DriftCheck", [case(run.rng, many=m) for m in ("rates", "channels") for _ in range(run.n(8, 100))], observe, corrupt=corrupt,
                rule="as above, 260 to 300 rates, or up to 520 channels")
    run.conform("drift planes of long scans", "DriftCheck", [case(run.rng, long=True) for _ in range(run.n(24, 300))], observe, corrupt=corrupt,
                rule="as above, up to 300 spectra of few channels")
