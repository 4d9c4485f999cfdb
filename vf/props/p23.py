"""P23: tones in files, through the whole pipeline, to hits and events."""
import math, os
from vf.core import exc_of, vec, rnd
from vf.scans import near

DAY0 = 60000


def offset(T, sp, t):
    a, b = abs(sp * t), T - 1
    return (1 if sp >= 0 else -1) * ((2 * a + b) // (2 * b))


def smear(T, sp, desmear):
    return max(1, (2 * abs(sp) + T - 1) // (2 * (T - 1))) if desmear else 1


def bins(T, sp, w, c):
    out = []
    for t in range(T):
        x = c + offset(T, sp, t)
        out += [(t, x + (b if sp >= 0 else -b)) for b in range(w)]
    return out


def tied(T, sp):
    """Does the line run exactly between two channels somewhere, with a slope that is no binary fraction?"""
    odd = T - 1
    while odd % 2 == 0:
        odd //= 2
    return sp % odd != 0 and any((2 * abs(sp) * t) % (2 * (T - 1)) == T - 1 for t in range(T))


def case(rng, scratch, j, mode, size=""):
    """mode: scan, target, cadence or program; size: wide (many fine channels and tones), many (many coarse channels), long (many spectra)"""
    T = rng.choice([4, 5, 8, 9, 13, 16, 16, 17, 32])
    fine = rng.choice([128, 256, 256, 512, 1024] if T < 32 else [256, 512])
    n = rng.choice([1, 2, 3, 4])
    if size == "wide":
        T, fine, n = rng.choice([4, 5, 8]), rng.choice([3000, 4096, 20000, 33000, 66000, 70000, 131072]), rng.choice([1, 1, 2])
    elif size == "many":
        T, fine, n = rng.choice([4, 5, 8]), rng.choice([128, 200]), rng.randint(9, 24)
    elif size == "long":
        T, fine, n = rng.choice([33, 64, 65, 128, 129]), rng.choice([256, 512, 600]), rng.choice([1, 2])
    cadence = mode == "cadence"
    if cadence:
        n = max(n, 2)
    desmear = rng.choice([0, 1])
    step = rng.choice([1, 1, 1, 2, 3])
    # rates
    big = rng.choice([2, 5, T // 2, T, T + 5, 2 * T] + ([3 * T] if T < 20 else []))
    big = min(big, fine // 12, 16 if size == "wide" else fine)
    lo, hi = rng.choice([(-big, big), (-big, big), (0, big), (-big, 0), (rng.randint(-big, 0), rng.randint(1, big))])
    hi = max(hi, lo + 2 * step)
    nr = (hi - lo) // step
    smax, wmax = max(abs(lo), abs(hi)), smear(T, max(abs(lo), abs(hi)), desmear)
    method = rng.choice(["cc", "cc", "lm"]) if not cadence else "cc"
    reach = rng.choice([2, 3, 5, 7])
    if cadence:
        reach = max(reach, step + 2)
    margin = reach if method == "lm" else 0
    F = rng.choice([-1, 1]) * (rng.choice([200, 500, 1000]) if cadence else rng.choice([1, 3, 20, 1000]))
    ts = rng.choice([1, 4, 10, 73])
    nscans, shape = 1, [1]
    gap = 0
    if mode == "target":
        shape = [rng.choice([2, 3])]
    elif cadence:
        shape = rng.choice([[3, 1, 1, 1], [2, 1], [2, 2], [3, 2], [2, 1, 1]])
        gap = rng.choice([1, 2])
        ts = max(1, math.ceil(337.5 * gap / T * rng.choice([0.8, 1, 1.4])))
    nscans = sum(shape)
    roll = rng.choice([0, fine // 16, fine // 8, fine // 4]) if mode != "program" else rng.choice([fine // 16, fine // 4])
    power, ripple, floor = 1000, rng.choice([5, 20]), rng.choice([100, 1000])
    noisemask = 1 if mode == "program" else rng.choice([0, 1, 1])
    if cadence:
        noisemask = 1
    flags = [f for f in ("sk", "sclip") if rng.random() < 0.4] + (["mag"] if noisemask and (cadence or rng.random() < 0.7) else [])
    if roll:
        flags.append("rolloff")
    rng.shuffle(flags)
    zero = rng.choice([0, 1]) if mode != "program" else 1
    # tones
    sigs, scans = [], [{"tones": [], "on": 1 if i < shape[0] else 0, "start": i * gap * (2 if not cadence else 1) + (i if mode == "target" else 0)} for i in range(nscans)]
    most = rng.choice([1, 1, 2, 3]) if size != "wide" else rng.choice([3, 20, 60])
    apart = 4 * smax + 2 * wmax + reach + 4
    drift_per_scan = lambda sp: sp / (T - 1) * (84.375 * gap * 4 / ts)
    rows = [r for r in range(1, nr + 1) if not tied(T, lo + (r - 1) * step)]

    def place(r, c):
        """ok for a tone here?"""
        sp = lo + (r - 1) * step
        bs = bins(T, sp, smear(T, sp, desmear), c)
        xs = [x for _, x in bs]
        return 0 <= min(xs) and max(xs) < fine and (sp >= 0 or c + sp >= 0) and all(abs(x - e) > 2 for x in (min(xs), max(xs)) for e in (roll, fine - roll)), bs

    if cadence:
        for cc in range(n):
            if not rows or rng.random() < 0.1:
                continue
            for _ in range(200):
                r = rng.choice(rows)
                sp = lo + (r - 1) * step
                c0 = rng.randrange(fine // 4, 3 * fine // 4)
                cs = [int(math.floor(c0 + i * drift_per_scan(sp) + 0.5)) for i in range(nscans)]
                if all(fine // 4 + 4 <= x <= 3 * fine // 4 - 4 for c in cs for x in (c, c + sp)) and all(place(r, c)[0] for c in cs) and not (zero and sp == 0):
                    break
            else:
                continue
            sigs.append(cc)
            kind = rng.random()
            for i, s in enumerate(scans):
                seen = s["on"] if kind < 0.4 else (s["on"] and rng.random() < 0.6) if kind < 0.6 else 1 if kind < 0.75 else rng.random() < 0.5
                if seen:
                    s["tones"].append({"cc": cc, "r": r, "c": cs[i], "sig": cc})
    else:
        for s in scans:
            for cc in range(n):
                mine = []
                for _ in range(rng.choice([0, 1, 1, most] if size != "wide" else [most])):
                    if not rows:
                        continue
                    r, c = rng.choice(rows), rng.randrange(fine)
                    if place(r, c)[0] and all(abs(c - o["c"]) > apart for o in mine):
                        mine.append({"cc": cc, "r": r, "c": c, "sig": cc})
                s["tones"] += mine
    k = max([sum(1 for x in s["tones"] if x["cc"] == cc) for s in scans for cc in range(n)] + [1])
    thr = math.ceil(2.4 * math.sqrt(T * wmax)) + 1
    # a tone must stand out from the noise it makes itself, where it is not masked
    if fine * T < 3 * thr * thr * k * max(1, wmax):
        return None
    one = 1 if method == "cc" and "mag" in flags and reach >= step + 2 else 0
    if cadence and not one:
        return None
    # kurtosis of the background, of which a little more is let pass
    sklim = max(5.0, 4 * (ripple / floor) ** 2 * round(max(1, abs(F) * ts / 4)) * 2)
    cmds, dirs = [], os.path.join(scratch, "t%d" % j)
    cmds.append("freshdir " + dirs)
    paths = []
    fch1 = rng.choice([1000.0, 8421.0, 1420.25])
    foff, tsamp = F / 1e6, ts / 4
    for i, s in enumerate(scans):
        path = os.path.join(dirs, "f%d.h5" % i)
        paths.append(path)
        at = []
        for x in s["tones"]:
            sp = lo + (x["r"] - 1) * step
            at += [v for t, y in bins(T, sp, smear(T, sp, desmear), x["c"]) for v in (t, y + x["cc"] * fine)]
        cmds.append("h5tones %s %d %d %r %r %r %r src%d 1.5 2.5 6 %s %d %d %d %d %s" % (
            path, T, fine * n, fch1, foff, tsamp, DAY0 + s["start"] / 1024, 0 if i < shape[0] else 1, rng.choice(["none", "nchans,nbits,class", "nchans,int32"]),
            floor, ripple, rng.randrange(1 << 30), power, vec(at)))
    reads = []
    if mode == "program":
        out = os.path.join(dirs, "hits.cp")
        args = [paths[0], "-d", "cpu", "--number-coarse", str(n), "--nchan-per-coarse", str(fine), "--desmear" if desmear else "--nodesmear", "-m", str(lo), "-M", str(hi), "-rs", str(step),
                "--filter-rolloff", repr(roll / fine), "--sk-low", "-1000", "--sk-high", repr(sklim), "--local-maxima" if method == "lm" else "--connected-components", "-s", str(thr), "--distance", str(reach),
                "-o", out]
        cmds += ["run %s bliss_find_hits %d %s" % (dirs, len(args), " ".join(args)), "load scan x " + out, "scanhits x"]
        reads.append(len(cmds) - 1)
        flags, one = ["sclip"], 0
    else:
        lvl = {"scan": "s", "target": "t", "cadence": "k"}[mode]
        if lvl == "s":
            cmds.append("scanh5 x %s %d" % (paths[0], fine))
        elif lvl == "t":
            cmds.append("targeth5 x %d %d %s" % (fine, len(paths), " ".join(paths)))
        else:
            parts, q = [], list(paths)
            for m in shape:
                parts.append("%d %s" % (m, " ".join(q[:m])))
                q = q[m:]
            cmds.append("cadenceh5 x %d %d %s" % (fine, len(shape), " ".join(parts)))
        norm = rng.random() < 0.3 and "mag" not in flags
        if norm:
            cmds.append("stage %s normalize x x" % lvl)
        for f in flags:
            cmds.append("stage %s %s x x %s" % (lvl, f, {"rolloff": repr(roll / fine), "sk": "-1000 %r 2" % sklim, "sclip": "5 3 4", "mag": repr(floor + power / 2)}[f]))
        cmds += ["stage %s noise x x %d" % (lvl, noisemask), "stage %s dedrift x x %d %d %d %d" % (lvl, desmear, lo, hi, step), "stage %s hits x x %s %d %d" % (lvl, method, thr, reach),
                 "stage %s filter x x %d" % (lvl, zero)]
        setup = len(cmds)
        i = 0
        for a, m in enumerate(shape):
            for b in range(m):
                if lvl == "k":
                    cmds += ["ktarget y x %d" % a, "tscan z y %d" % b, "scanhits z"]
                elif lvl == "t":
                    cmds += ["tscan z x %d" % b, "scanhits z"]
                else:
                    cmds.append("scanhits x")
                reads.append(len(cmds) - 1)
                i += 1
        if cadence:
            cmds.append("events x x")
    cmds.append("freshdir " + dirs)
    scale = floor + power + ripple if mode == "program" or norm else 1
    return {"cmds": cmds, "reads": reads, "mode": mode, "fch1": fch1, "foff": foff, "scale": power / scale,
            "rec": {"p": {"lo": lo, "step": step, "nr": nr, "desmear": desmear}, "nt": T, "fine": fine, "F": F, "ts": ts, "roll": roll, "zero": zero, "one": one, "margin": margin,
                    "cadence": 1 if cadence else 0, "sigs": sigs}, "scans": scans}


def hit(case, h):
    return {"cc": h["cc"], "idx": h["idx"], "rate": h["rate"] + 1, "hz": rnd(h["drift"], 1000), "off": near((h["freq"] - case["fch1"]) / case["foff"], 1000, 1),
            "pow": rnd(h["power"] / case["scale"], 100), "t": near((h["t0"] - DAY0 * 86400) / 84.375, 1)}


def observe(case, resp):
    r = dict(case["rec"], scans=[], events=[])
    first = next((exc_of(x) for x in resp[:case["reads"][0]] if not x["ok"]), "")
    if case["mode"] == "program" and not first and resp[case["reads"][0] - 2]["rc"]:
        first = "exit status"
    for s, i in zip(case["scans"], case["reads"]):
        e = first or exc_of(resp[i])
        r["scans"].append({"exc": e, "t": s["start"], "on": s["on"], "tones": s["tones"], "hits": [] if e else [hit(case, h) for h in resp[i]["hits"]]})
    if r["cadence"]:
        ev = resp[-2]
        if not ev["ok"]:
            r["scans"][0]["exc"] = exc_of(ev)
        else:
            r["events"] = [[hit(case, h) for h in e["hits"]] for e in ev["events"]]
    return r


def corrupt(r):
    if r["cadence"] and r["events"]:
        r["events"].pop()
        return r
    for s in r["scans"]:
        for h in s["hits"]:
            h["idx"] += 1
            h["off"] += 1000
            return r
    return None


def cases(rng, scratch, mode, count, base, size=""):
    out = []
    while len(out) < count:
        c = case(rng, scratch, base + len(out), mode, size)
        if c:
            out.append(c)
    return out


def check(run):
    run.design("ToneMC", consts={"MaxT": run.n(3, 4), "MaxF": run.n(6, 8), "MaxSpan": run.n(3, 4)}, timeout=3000)
    for i, (mode, q, th) in enumerate([("scan", 300, 3000), ("target", 80, 800), ("cadence", 120, 1200), ("program", 80, 800)]):
        run.conform("tones through a %s" % mode, "ToneCheck", cases(run.rng, run.scratch, mode, run.n(q, th), 10000 * i), observe, corrupt=corrupt, case_timeout=120,
                    rule="seeded random files with drifting tones; sizes, rates, flags, search options at random")
    for i, (size, q, th) in enumerate([("wide", 24, 250), ("many", 40, 300), ("long", 24, 250)]):
        run.conform("tones in files with %s" % {"wide": "many fine channels", "many": "many coarse channels", "long": "many spectra"}[size], "ToneCheck",
                    [c for j, mode in enumerate(("scan", "program")) for c in cases(run.rng, run.scratch, mode, run.n(q, th) // 2, 100000 * (i + 1) + 10000 * j, size)], observe, corrupt=corrupt,
                    case_timeout=240, rule="up to 131072 fine channels and 60 tones, up to 24 coarse channels, up to 129 spectra")
