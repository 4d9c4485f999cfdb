"""P21: text exports, formats of result files, and the programs bliss_find_hits and bliss_hits_to_dat."""
import json, math, os, re, struct
from fractions import Fraction
from vf.core import exc_of, vec, enc, rnd

U = 500  # drifts in 1/U Hz/s


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


# ---- reading what was written -----------------------------------------------------------------
NUM = r"-?\d+\.\d{6}"


def fixed(text, scale=1000000, base=0):
    v = (Fraction(text) - base) * scale
    if v.denominator != 1 or abs(v) > 2000000000:
        raise ValueError("number %s" % text)
    return int(v)


def parse_dat(text, base):
    lines = text.split("\n")
    if len(lines) < 10 or lines[-1] != "":
        raise ValueError("lines of the header")
    f = re.fullmatch(r"# File ID: (.*)", lines[1])
    s = re.fullmatch(r"# Source:(.*)", lines[3])
    a = re.fullmatch(r"# MJD: (\S+)\tRA: (\d{2,})h(\d\d)m(\d\d\.\d{3})ss\tDEC:([+-])(\d{2,})d(\d\d)m(\d\d\.\d\d)s", lines[4])
    d = re.fullmatch(r"# DELTAT: (%s)\tDELTAF\(Hz\):  (%s) max_drift_rate: (\S+)\tobs_length: (%s)" % (NUM, NUM, NUM), lines[5])
    if not (f and s and a and d):
        raise ValueError("header %r" % lines[:9])
    head = {"l1": lines[0], "l3": lines[2], "l7": lines[6], "l8": lines[7], "l9": lines[8], "file": f.group(1), "src": s.group(1), "mjd": fixed(a.group(1), 1024),
            "ra": {"h": int(a.group(2)), "m": int(a.group(3)), "s": fixed(a.group(4), 1000)}, "sign": a.group(5),
            "dec": {"h": int(a.group(6)), "m": int(a.group(7)), "s": fixed(a.group(8), 100)}, "rate": d.group(3),
            "dt": fixed(d.group(1)), "df": fixed(d.group(2)), "len": fixed(d.group(4))}
    rows = []
    for line in lines[9:-1]:
        x = line.split("\t")
        if len(x) != 12 or not all(re.fullmatch(NUM, x[i]) for i in (1, 2, 3, 4, 6, 7, 8, 9)):
            raise ValueError("row %r" % line)
        rows.append({"n": x[0], "drift": fixed(x[1]), "snr": fixed(x[2]), "mid": fixed(x[3], base=base), "mid2": fixed(x[4], base=base), "idx": int(x[5]),
                     "start": fixed(x[6], base=base), "end": fixed(x[7], base=base), "sefd": fixed(x[8]), "sefdf": fixed(x[9]), "cc": int(x[10]), "binw": int(x[11])})
    return {"head": head, "rows": rows}


HIT = re.compile(r"hit: \.start_freq_MHz=(%s) \(\.index=(-?\d+)\), \.drift_rate_Hz_per_second=(%s) \(\.index=(-?\d+)\), \.SNR=(%s), \.power=(-?\d+), bandwidth=(-?\d+\.\d)" % (NUM, NUM, NUM))


def parse_prints(text, base, title):
    """Sections of printed hits."""
    out = []
    for line in text.splitlines():
        m = re.fullmatch(title, line)
        if m:
            out.append({"count": int(m.group(1)), "lines": []})
        elif line.startswith("hit:"):
            m = HIT.fullmatch(line)
            if not m or not out:
                raise ValueError("printed %r" % line)
            out[-1]["lines"].append({"freq": fixed(m.group(1), base=base), "idx": int(m.group(2)), "drift": fixed(m.group(3)), "rate": int(m.group(4)),
                                     "snr": fixed(m.group(5)), "power": int(m.group(6)), "bw": fixed(m.group(7), 10)})
    return out


# ---- what should be there ---------------------------------------------------------------------
def scaled(x, scale, base=0):
    v = (Fraction(x) - base) * scale
    if abs(v) > 2000000000:
        raise ValueError("value %r too large to judge" % x)
    return int(math.floor(v + Fraction(1, 2)))


def spec_hits(hs, base):
    if any(isinstance(v, str) for h in hs for v in h.values()):
        raise ValueError("hits %r" % hs)
    return [{"idx": h["idx"], "rate": h["rate"], "cc": h["cc"], "binw": h["binw"], "freq": scaled(h["freq"], 1000000, base), "drift": scaled(h["drift"], 1000000),
             "bd": scaled(h["drift"], U), "snr": scaled(h["snr"], 1000000), "power": scaled(h["power"], 1), "bw": scaled(h["bw"], 10), "dur": scaled(h["dur"], 4), "tol": 1} for h in hs]


def texts(hs, stored=False):
    """Every field but the flag counts; a stored hit has some of them as 32 bit numbers."""
    out = []
    for h in hs:
        h = {k: v for k, v in h.items() if k != "rfi"}
        h = {k: float(v) for k, v in h.items()}
        if not stored:
            for k in ("dur", "power", "bw", "binw"):
                h[k] = f32(h[k])
        out.append(json.dumps(h, sort_keys=True))
    return out


def spec_md(info, path):
    return {"file": path, "src": info["src"], "tstart": enc(info["tstart"], 1024), "raj": rnd(info["raj"], 3600000), "dej": rnd(info["dej"], 360000),
            "tsamp": rnd(info["tsamp"], 1000000), "foff": rnd(info["foff"], 1e12), "nt": info["nt"]}


def base_of(hs):
    return int(min([h["freq"] for h in hs] or [0]))


# ---- exports of arranged hits -----------------------------------------------------------------
def some_hit(rng, f0):
    odd = rng.random() < 0.2
    return {"idx": rng.choice([0, 1, rng.randint(0, 1 << 20), rng.randint(0, 2 ** 31 - 1)]), "freq": f0 + rng.choice([0, rng.random(), rng.randint(0, 999999) / 1e6, rng.uniform(0, 900)]),
            "t0": 5e9 + rng.randint(0, 1 << 20), "dur": rng.randint(0, 1 if odd else 1200) / 4, "rate": rng.randint(-500, 500),
            "drift": rng.choice([0.0, rng.uniform(-4, 4), rng.uniform(-1e-5, 1e-5), rng.randint(-40, 40) / 10]) if not odd else rng.uniform(-900, 900),
            "power": rng.uniform(0, 1e9), "span": rng.randint(0, 300), "snr": f32(rng.choice([rng.uniform(0, 50), rng.uniform(0, 1900), rng.uniform(0, 1)])),
            "bw": f32(rng.uniform(0, 1e5)), "binw": rng.choice([1, rng.randint(0, 4000)]), "cc": rng.choice([0, 1, rng.randint(0, 800)])}


def token(h):
    return "%d %r %r %r %d %r %r %d %r %r %d %d 0" % (h["idx"], h["freq"], h["t0"], h["dur"], h["rate"], h["drift"], h["power"], h["span"], h["snr"], h["bw"], h["binw"], h["cc"])


def hitlist(hs):
    return "%d %s" % (len(hs), " ".join(token(h) for h in hs))


ANGLES = [0.0, 0.5, 12.5, 17.25, 7.123456, 1 / 3, 0.01, 10.9999]


def make_scan(rng, scratch, tag, h5):
    """Commands that make a scan s with hits; what it is."""
    f0 = rng.choice([1000, 2000, 8421, 11000])
    nchan, fine = rng.choice([1, 1, 2, 3]), rng.choice([2, 4])
    info = {"src": rng.choice(["Voyager1", "J0835-4510", "two words" if h5 else "x", "-"]), "tstart": rng.choice([59000.0, 57650.125, 60000.5]),
            "raj": rng.choice(ANGLES + [23.99]), "dej": rng.choice([-1, 1]) * rng.choice(ANGLES + [89.5, 59.999]), "tsamp": rng.choice([0.25, 1.0, 1 / 3, 18.253611]),
            "foff": rng.choice([-1, 1]) * rng.choice([2.7939677238464355e-06, 1e-6, 3e-6, 0.0003]), "nt": rng.choice([2, 4])}
    if h5:
        info["src"] = info["src"].replace(" ", "_")
    lists = [[some_hit(rng, f0) for _ in range(rng.choice([0, 1, 1, 2, 5, 12]) if rng.random() > 0.02 else rng.choice([60, 130, 300]))] for _ in range(nchan)]
    if rng.random() < 0.04:
        lists[-1] = [some_hit(rng, f0) for _ in range(120)]
    md = "%r %r %s" % (float(f0), info["foff"], "%s")
    if h5:
        path = os.path.join(scratch, tag + ".h5")
        cmds = ["h5w %s %d %d %r %r %r %r %s %r %r 6 class 0" % (path, info["nt"], fine * nchan, float(f0), info["foff"], info["tsamp"], info["tstart"], info["src"],
                                                              info["raj"], info["dej"]),
                "scanh5 s %s %d" % (path, fine)] + ["hlist L%d %s" % (i, hitlist(l)) for i, l in enumerate(lists)] + ["scanhitsby s L"]
    else:
        path = "n/a"
        cmds = []
        for i, l in enumerate(lists):
            cmds.append("ccmd c%d %r %r %d %d 1 %r %r %d %s %r %r 6" % (i, f0 + i * fine * info["foff"], info["foff"], fine, info["nt"], info["tsamp"], info["tstart"], i,
                                                                       info["src"].replace(" ", "_"), info["raj"], info["dej"]))
            cmds.append("%s c%d %s" % (rng.choice(["ccsethits", "ccsethitsfn"]), i, hitlist(l)))
        info["src"] = info["src"].replace(" ", "_")
        cmds.append("scanmap s %d %s" % (nchan, " ".join("c%d" % i for i in range(nchan))))
    return cmds, info, path, [h for l in lists for h in l]


def failed(rs):
    for r in rs:
        if not r["ok"]:
            raise ValueError("failed: %s" % r)


def dat_case(rng, scratch, j):
    cmds, info, path, hs = make_scan(rng, scratch, "d%d" % j, rng.random() < 0.4)
    out = os.path.join(scratch, "d%d%s" % (j, rng.choice([".dat", ".dat", ".txt", ""])))
    w = "save dat s " + out if not out.endswith(".dat") or rng.random() < 0.5 else "savescan s %s %s" % (out, rng.choice(["_", "dat"]))
    return {"cmds": ["unlink " + out] + cmds + [w, "slurp " + out], "md": spec_md(info, path), "hits": hs}


def dat_observe(c, resp):
    failed(resp[:-2])
    e = exc_of(resp[-2])
    base = base_of(c["hits"])
    return {"kind": "dat", "exc": e, "md": c["md"], "u": U, "hits": spec_hits(c["hits"], base), "text": parse_dat(resp[-1]["text"], base) if not e else 0}


def dat_corrupt(r):
    if not r["text"] or not r["text"]["rows"]:
        return None
    rows = r["text"]["rows"]
    k = len(r["hits"]) % 4
    if k == 0 or len(rows) == 1:
        rows[-1]["cc"] += 1
    elif k == 1:
        rows.pop()
    elif k == 2:
        rows[-1]["drift"] = -rows[-1]["drift"] - 9
    else:
        r["text"]["head"]["dec"]["m"] += 1
    return r


# ---- formats ----------------------------------------------------------------------------------
def format_case(rng, scratch, j):
    out = os.path.join(scratch, "fm%d%s" % (j, rng.choice([".dat", ".capnp", ".cp", "", ".txt", ".dat.cp", ".cp.dat", "dat", ".DAT", ".hits"])))
    fmt = rng.choice(["", "", "dat", "capnp", "turboseti", "json", "DAT"])
    cmds, _, _, _ = make_scan(rng, scratch, "fm%d" % j, False)
    if rng.random() < 0.5:
        return {"cmds": ["unlink " + out] + cmds + ["savescan s %s %s" % (out, fmt or "_"), "slurp " + out], "fmt": fmt, "path": os.path.basename(out), "kind": "write"}
    kind = rng.choice(["loadscan", "loadhits"])
    cmds = cmds + ["save scan s " + out] if kind == "loadscan" else ["hlist h " + hitlist([some_hit(rng, 1000) for _ in range(3)]), "save hits h " + out]
    return {"cmds": ["unlink " + out] + cmds + ["%s x %s %s" % (kind, out, fmt or "_")], "fmt": fmt, "path": os.path.basename(out), "kind": "read"}


def format_observe(c, resp):
    r = {"kind": c["kind"], "fmt": c["fmt"], "path": c["path"]}
    if c["kind"] == "read":
        failed(resp[:-1])
        return dict(r, exc=exc_of(resp[-1]))
    failed(resp)
    return dict(r, seen="dat" if resp[-1]["text"].startswith("# ---") else "capnp")


def format_corrupt(r):
    if r["kind"] == "write":
        r["seen"] = "dat" if r["seen"] == "capnp" else "capnp"
    else:
        r["exc"] = "" if r["exc"] else "invalid_argument"
    return r


# ---- bliss_hits_to_dat ------------------------------------------------------------------------
def convert_case(rng, scratch, j):
    cmds, info, path, hs = make_scan(rng, scratch, "v%d" % j, rng.random() < 0.3)
    hs = [dict(h, dur=f32(h["dur"]), power=f32(h["power"])) for h in hs]
    d, stem = os.path.join(scratch, "v%d" % j), rng.choice(["hits", "a.b", "x-1"])
    src = os.path.join(scratch, "v%d-in" % j)
    infile = os.path.join(src, stem + rng.choice([".capnp", ".cp", ".bin"]))
    out = rng.choice(["", "", "-", "stdout", "o.dat", "o.txt", "o"])
    args = ["-i", infile] + (["-o", out] if out else [])
    if rng.random() < 0.3:
        args = [{"-i": "--input", "-o": "--output"}.get(a, a) for a in args]
    if out and rng.random() < 0.5:
        args = args[2:] + args[:2]
    place = out if out not in ("", "-", "stdout") else stem + ".dat"
    return {"cmds": ["freshdir " + d, "freshdir " + src] + cmds + ["save scan s " + infile, "run %s bliss_hits_to_dat %d %s" % (d, len(args), " ".join(args)), "lsdir " + d,
                                                                 "slurp %s/%s" % (d, place)],
            "md": spec_md(info, "n/a"), "hits": hs, "out": out, "stem": stem}


def convert_observe(c, resp):
    failed(resp[:-1])
    run, ls, text = resp[-3:]
    base = base_of(c["hits"])
    r = {"kind": "convert", "out": c["out"], "stem": c["stem"], "rc": run["rc"], "names": ls["names"], "md": c["md"], "u": U, "hits": spec_hits(c["hits"], base)}
    if text["ok"]:
        return dict(r, text=parse_dat(text["text"], base))
    p = parse_prints(run["out"], base, r"Got (\d+) hits")
    return dict(r, text=p[0] if len(p) == 1 else {"count": -1, "lines": []})


def convert_corrupt(r):
    t = r["text"]
    rows = t.get("rows", t.get("lines"))
    if rows:
        rows.append(rows[0])
    else:
        r["names"] = r["names"] + ["extra"]
    return r


# ---- help -------------------------------------------------------------------------------------
def usage_case(rng, scratch, j):
    d, src = os.path.join(scratch, "u%d" % j), os.path.join(scratch, "u%d-in" % j)
    prog = rng.choice(["bliss_find_hits", "bliss_hits_to_dat"])
    f, h = os.path.join(src, "in.h5"), os.path.join(src, "in.capnp")
    lacking = [f] + rng.choice([["--distance", "3"], ["--nodesmear"], []]) + [rng.choice(["-s", "--snr", "-m", "--max-rate", "--sk-low", "-e", "--distance", "-o", "-c", "--filter-rolloff"])]
    args = rng.choice([["-h"], ["--help"], lacking, lacking] if prog == "bliss_find_hits" else [["-h"], ["--help"], [], ["-i", h, "-o"], ["-i", h, "-z"], ["-i"], ["-o", "x.dat"], ["-i", h, "more"]])
    return {"cmds": ["freshdir " + d, "freshdir " + src, "h5w %s 8 32 1000.0 1e-6 1.0 59000.0 x 1.0 1.0 6 class %s" % (f, vec([rng.randint(50, 150) for _ in range(8 * 32)])),
                     "hlist l 1 " + token(some_hit(rng, 1000)), "ccmd c 1000.0 1e-6 4 4 1 1.0 59000.0 0 x 1.0 1.0 6", "ccsethits c 1 " + token(some_hit(rng, 1000)), "scanmap s 1 c",
                     "save scan s " + h, "run %s %s %d %s" % (d, prog, len(args), " ".join(args)), "lsdir " + d]}


def usage_observe(c, resp):
    failed(resp)
    run, ls = resp[-2:]
    return {"kind": "usage", "rc": run["rc"], "names": ls["names"], "usage": "SYNOPSIS" in run["out"], "hits": "hits\n" in run["out"]}


def usage_corrupt(r):
    return dict(r, usage=False)


# ---- bliss_find_hits --------------------------------------------------------------------------
NF, FLAGS = 48, {"c": ("-c", "--coarse-channel"), "number": ("--number-coarse",), "fine": ("--nchan-per-coarse",), "lo": ("-m", "--min-rate"), "hi": ("-M", "--max-rate"),
                 "step": ("-rs", "--rate-step"), "rolloff": ("--filter-rolloff",), "iters": ("--sigmaclip-iters",), "siglo": ("--sigmaclip-low",), "sighi": ("--sigmaclip-high",),
                 "sklo": ("--sk-low",), "skhi": ("--sk-high",), "skd": ("--sk-d",), "snr": ("-s", "--snr"), "dist": ("--distance",)}
HUNDREDTHS = {"rolloff", "siglo", "sighi", "sklo", "skhi", "skd", "snr"}


def spectrogram(rng, nt):
    """Noise with drifting tones."""
    data = [[int(max(1, min(900, rng.gauss(100, 20)))) for _ in range(NF)] for _ in range(nt)]
    for _ in range(rng.choice([1, 2, 3, 4])):
        f, r, a = rng.randrange(NF), rng.uniform(-10, 10), rng.choice([60, 150, 400])
        for t in range(nt):
            k = int(round(f + r * t / nt))
            if 0 <= k < NF:
                data[t][k] += a
    return [x for row in data for x in row]


def pipe_case(rng, hist, scratch, j):
    last = hist[-1]
    o, names, stages = last["o"], last["names"], last["stages"]
    d, src = os.path.join(scratch, "p%d" % j), os.path.join(scratch, "p%d-in" % j)
    nt = rng.choice([8, 16])
    cmds = ["freshdir " + d, "freshdir " + src]
    f0, foff, tsamp = rng.choice([1000, 1420, 8421]), rng.choice([-1, 1]) * rng.choice([2.7939677238464355e-06, 1.4e-6]), rng.choice([1.0, 0.5])
    paths = []
    srcname = rng.choice(["Voyager1", "x"])
    for i, n in enumerate(names):
        p = os.path.join(src, n["stem"] + n["ext"])
        paths.append(p)
        cmds.append("h5w %s %d %d %r %r %r %r %s %r %r 6 class,nchans,nifs,nbits %s" % (p, nt, NF, float(f0), foff, tsamp, 59000.25 + i, srcname, 7.25, -11.5,
                                                                                     vec(spectrogram(rng, nt))))
    fine = o.get("fine", 0)
    hfile = os.path.join(src, "h.f32")
    if fine:
        with open(os.path.join(scratch, "h%d.f32" % j), "wb") as fh:
            fh.write(struct.pack("<%df" % fine, *[rng.choice([0.5, 0.75, 1, 1.25]) for _ in range(fine)]))
        hfile = os.path.join(scratch, "h%d.f32" % j)
    # the command line
    groups = []
    for n, v in o.items():
        if n in FLAGS:
            groups.append([rng.choice(FLAGS[n]), repr(v / 100) if n in HUNDREDTHS else str(v)])
        elif n == "taps":
            if v:
                groups.append([rng.choice(["-e", "--equalizer-channel"]), hfile])
        elif n == "desmear":
            groups.append(["--desmear" if v else "--nodesmear"])
        elif n == "method":
            groups.append(["--connected-components" if v == "cc" else "--local-maxima"])
        elif n == "out" and v:
            groups.append([rng.choice(["-o", "--output"]), v] + ([o["form"]] if o.get("form") else []))
    groups.append([rng.choice(["-d", "--device"]), "cpu"])
    rng.shuffle(groups)
    # the program refuses options after -o (it shows its help)
    groups.sort(key=lambda g: g[0] in ("-o", "--output"))
    args = paths + [x for g in groups for x in g]
    cmds += ["run %s bliss_find_hits %d %s" % (d, len(args), " ".join(args)), "lsdir " + d]
    places = [(w["place"], "%s/%s" % (d, w["place"])) for w in last["outputs"]]
    got = len(cmds)
    for p, full in places:
        cmds += ["slurp " + full, "load scan got " + full, "scanhits got"] if p != "-" else []
    # the same with the library
    ref = len(cmds)
    x = "x"
    for s in stages:
        a, op = s["a"], s["op"]
        if op == "open":
            cmds.append("targeth5 x %d %d %s" % (a[0], len(paths), " ".join(paths)))
        elif op == "slice":
            cmds.append("tslice x x %d %d" % tuple(a))
        elif op == "equalizefile":
            cmds.append("stage t equalizefile x x " + hfile + " f")
        elif op in ("rolloff", "sk"):
            cmds.append("stage t %s x x %s" % (op, " ".join(repr(v / 100) for v in a)))
        elif op == "sclip":
            cmds.append("stage t sclip x x %d %r %r" % (a[0], a[1] / 100, a[2] / 100))
        elif op in ("hitscc", "hitslm"):
            cmds.append("stage t hits x x %s %r %d" % (op[4:], a[0] / 100, a[1]))
        else:
            cmds.append("stage t %s x x %s" % (op, " ".join(str(v) for v in a)))
    want = len(cmds)
    for i in range(len(names)):
        cmds += ["tscan s x %d" % i, "scaninfo s", "scanhits s"]
    return {"cmds": cmds, "o": o, "names": names, "stages": stages, "places": places, "paths": paths, "at": (got, ref, want)}


def pipe_observe(c, resp):
    got, ref, want = c["at"]
    failed(resp[:got])
    failed(resp[ref:want])
    run, ls = resp[got - 2], resp[got - 1]
    r = {"kind": "pipe", "o": c["o"], "names": c["names"], "stages": c["stages"], "rc": run["rc"], "files": ls["names"], "got": [],
         "error": "ERROR: got a fatal exception" in run["out"]}
    rs, refs = list(resp[want:]), []
    for p in c["paths"]:
        scan, info, hits = rs.pop(0), rs.pop(0), rs.pop(0)
        failed([scan, info])
        refs.append((info, hits.get("hits", []), p, exc_of(hits)))
    base = base_of([h for _, hs, _, _ in refs for h in hs])
    c["found"] = [len(hs) for _, hs, _, e in refs if not e]
    r["want"] = [{"exc": e, "texts": texts(hs), "md": spec_md(info, p), "hits": spec_hits(hs, base), "u": U} for info, hs, p, e in refs]
    printed = parse_prints(run["out"], base, r"scan has (\d+) hits")
    g = list(resp[got:ref])
    for (p, _), w in zip(c["places"], r["want"]):
        if p == "-":
            if printed:
                r["got"].append({"form": "print", "text": printed.pop(0)})
            continue
        text, loaded, hits = g.pop(0), g.pop(0), g.pop(0)
        if not text["ok"]:
            continue
        if text["text"].startswith("# ---"):
            r["got"].append({"form": "dat", "text": parse_dat(text["text"], base)})
        else:
            failed([loaded, hits])
            r["got"].append({"form": "capnp", "hits": texts(hits["hits"], True)})
    if printed:
        raise ValueError("more was printed than there are scans")
    return r


def pipe_corrupt(r):
    if not r["got"]:
        return dict(r, files=r["files"] + ["more"])
    g = r["got"][-1]
    if g["form"] == "capnp":
        g["hits"] = g["hits"][1:] if g["hits"] else ["x"]
    elif g["form"] == "dat":
        g["text"]["rows"] = g["text"]["rows"][1:] + g["text"]["rows"][:1] * 2
        if not g["text"]["rows"]:
            return None
    else:
        g["text"]["count"] += 1
    return r


def check(run):
    rng = run.rng
    run.design("ExportMC", consts={"MaxOptions": run.n(3, 4)})
    run.conform("text exports", "ExportCheck", [dat_case(rng, run.scratch, j) for j in range(run.n(400, 6000))], dat_observe, corrupt=dat_corrupt,
                rule="random scans with random hits exported as text; every line judged")
    run.conform("formats", "ExportCheck", [format_case(rng, run.scratch, j) for j in range(run.n(150, 1500))], format_observe, corrupt=format_corrupt,
                rule="random requested formats and file names, written and read")
    run.conform("conversions", "ExportCheck", [convert_case(rng, run.scratch, j) for j in range(run.n(80, 1000))], convert_observe, corrupt=convert_corrupt,
                rule="random scan files converted by bliss_hits_to_dat")
    run.conform("help", "ExportCheck", [usage_case(rng, run.scratch, j) for j in range(run.n(60, 400))], usage_observe, corrupt=usage_corrupt,
                rule="command lines that ask for help or that lack something, to both programs", case_timeout=60)
    hs = run.behaviours("ExportGen", num=run.n(200, 1500), depth=21)
    cases = [pipe_case(rng, h, run.scratch, j) for j, h in enumerate(hs)]
    run.conform("programs", "ExportCheck", cases, pipe_observe, corrupt=pipe_corrupt, case_timeout=60,
                rule="random command lines of bliss_find_hits from TLC simulation of Export, compared to the stages they stand for run in the library")
    n = [x for c in cases for x in c.get("found", [])]
    run.log("scans with hits: %d of %d, hits %d" % (sum(1 for x in n if x), len(n), sum(n)))
