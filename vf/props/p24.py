"""P24: the Python modules give what the library gives."""
import os
from vf.arrays import *
from vf.core import Python, enc, exc_of, vec
from vf.props import p02, p03, p04, p05, p06, p10, p11, p13, p14, p17, p20, p23, p25
from vf import large, scans

PYTHON = True
ARRAYS = {"new", "slice", "squeeze", "handle", "newfill", "setruns", "getruns", "get", "fill", "bin", "scal", "cmps", "un", "red", "mstd", "mred", "mmstd", "median", "moment", "write", "read", "arange", "linspace", "numel"}
CALLS = {"scal": {"add", "sub", "mul"}, "cmps": {"lt", "gt"}, "un": {"square"}}


def known(c):
    """Is everything the case does there in the Python modules?"""
    for cmd in c["cmds"]:
        t = cmd.split()
        if t[0] not in ARRAYS or t[0] in CALLS and t[1] not in CALLS[t[0]] or t[0] == "mred" and t[1] == "var":
            return False
        if t[0] == "arange" and (t[2] != "f" or t[3] != "f") or t[0] == "linspace" and t[2] != "f":
            return False
    return True


def layouts(rng, c):
    """The operands in other layouts that only Python makes: column by column, or backwards in memory."""
    at = next(i for i, w in enumerate(c["want"]) if w)
    for n in "ab":
        if rng.random() < 0.25 and any(cmd.split()[1] == n for cmd in c["cmds"][:at]):
            rank = len(c["A" if n == "a" else "B"][0])
            cmd = "fort %s %s" % (n, n) if rng.random() < 0.5 else "rev %s %s %d" % (n, n, rng.randrange(rank))
            c["cmds"].insert(at, cmd)
            c["want"].insert(at, None)
    return c


def kept(rng, c):
    """Sometimes only numpy's view of the result is kept."""
    if rng.random() < 0.4 and "op" in c["want"] and "r" in c["want"]:
        at = c["want"].index("r")
        c["cmds"].insert(at, "keep r")
        c["want"].insert(at, None)
    return c


def take(rng, n, gens):
    out = []
    while len(out) < n:
        c = rng.choice(gens)(rng)
        if known(c) and not p02.overflow(c):
            out.append(kept(rng, layouts(rng, c)))
    return out


def gen_slice(rng):
    """The modules' own slice, in one axis: judged as the elements kept."""
    shape, dt = shapes(rng, 3, 80), rng.choice("fiub")
    v = [8 * rng.randint(0, 200) for _ in range(numel(shape))]
    dim = rng.randrange(len(shape))
    n, st = shape[dim], rng.choice([1, 1, 2, 3])
    s = rng.randint(0, n - 1)
    e = s + st * rng.randint(1, max(1, (n - s) // st))
    if rng.random() < 0.3:
        e = rng.choice([n, n + 2, -1])
    if rng.random() < 0.2:
        s -= n
    c = Case(kind="slice", op="slice", spec=[dim, s, e, st])
    c["A"] = (shape, dt, v)
    for cmd in view(rng, "a", dt, shape, [p02.txt(x) for x in v])[0]:
        c.do(cmd)
    c.do("pyslice r a %d %d %d %d" % tuple(c["spec"]), "op").do("get r", "r")
    finish_operands(c, "a", 8)
    c["family"] = "slice"
    return kept(rng, layouts(rng, c))


def observe_slice(c, resp):
    r = p03.observe(c, resp)
    r["spec"] = c["spec"]
    r["obs"]["r"] = got(c.responses(resp)["r"], 8) if r["obs"]["exc"] == "" else NONE
    return r


def gen_file(scratch):
    return lambda rng: p06.gen_file(rng, scratch, rng.randrange(1 << 40))


def mirrored(case):
    """Every call made through both; Python's answers where it has any."""
    m = dict(case, cmds=["mode mirror"] + case["cmds"])
    m["plan"] = [("setup", None, None)] + case["plan"]
    return m


def moded(mode):
    def f(case):
        m = dict(case, cmds=["mode " + mode] + case["cmds"])
        m["plan"] = [(None, 1)] + case["plan"]
        if "kinds" in m:
            m["kinds"] = [None] + case["kinds"]
        return m
    return f


def piped(cs):
    """The modules have no magnitude flagger with a limit for more than one channel: where the limit of mean and deviation would
    do the same, it is used; other cases are left out."""
    out = []
    for c in cs:
        rec, auto = c["rec"], False
        p = rec["p"]
        w = p23.smear(rec["nt"], max(abs(p["lo"]), abs(p["lo"] + p["step"] * p["nr"])), p["desmear"])
        k = max([sum(1 for x in s["tones"] if x["cc"] == cc) for s in c["scans"] for cc in range(8)] + [1])
        for i, cmd in enumerate(c["cmds"]):
            t = cmd.split()
            if t[0] == "stage" and t[2] == "mag":
                c["cmds"][i], auto = " ".join(t[:2] + ["magauto"] + t[3:5]), True
        if not auto or 140 * k * w < rec["fine"]:
            out.append(c)
    return out


def gen_large(rng):
    while True:
        c = rng.choice([large.arith, large.compare, large.reduce, lambda r: large.reduce(r, masked=True)])(rng)
        if known(c):
            return kept(rng, c)


def check(run):
    run.design("ArrMC", consts={"MaxDim": 3})
    run.design("StoreMC", consts={"MaxLevel": 4})
    rng = run.rng

    def conform(family, module, cases, observe, **kw):
        run.conform(family, module, cases, observe, worker=Python, **kw)
    for fam, gens, mod, n in (("arithmetic", [p02.gen_bin, p02.gen_scal, p02.gen_un], p02, 600), ("comparisons", [p03.gen, p03.gen_extreme], p03, 300), ("statistics", [p04.gen, p04.gen_median, p04.gen_moment], p04, 500),
                              ("masked statistics", [p05.gen], p04, 300), ("raw files and ranges", [gen_file(run.scratch), p06.gen_make], p06, 200)):
        conform(fam, "ArrayCheck", take(rng, run.n(n, n * 8), gens), mod.observe, corrupt=mod.corrupt, rule="numpy arrays of every layout through the modules' functions, results seen by numpy")
    conform("large arrays", "RunsCheck", [gen_large(rng) for _ in range(run.n(100, 1000))], large.observe, corrupt=large.corrupt, case_timeout=60, rule="numpy arrays of up to 131072 elements")
    conform("slices", "ArrayCheck", [gen_slice(rng) for _ in range(run.n(300, 2000))], observe_slice, corrupt=p02.corrupt, rule="seeded slices of one axis")
    conform("spectra and filters", "ResponseCheck", [rng.choice([p25.spectrum, p25.lowpass, p25.response])(rng) for _ in range(run.n(150, 1500))], p25.observe, corrupt=p25.corrupt,
            rule="power spectra of numpy arrays, low-pass filters and channel responses")
    # scans, targets and cadences of files: what Python sees of them
    hs = run.behaviours("ScanGen", num=run.n(120, 1200), depth=14, consts={"Depth": 14, "Mode": '"python"'})
    conform("scans", "ScanTrace", [mirrored(scans.history_case(rng, h, run.scratch, i)) for i, h in enumerate(hs)], scans.observe, corrupt=scans.corrupt,
            rule="behaviours of Scan over files; every call made through Python as well")
    hs = run.behaviours("CadenceGen", num=run.n(150, 1500), depth=22, consts={"Depth": 22, "Plain": "TRUE"})
    conform("cadences", "CadenceTrace", [mirrored(p10.case(rng, h, run.scratch, i)) for i, h in enumerate(hs)], p10.observe, corrupt=p10.corrupt,
            rule="behaviours of Cadence over files; every call made through Python as well")
    # flaggers and estimators
    hs = run.behaviours("FlagsGen", num=run.n(70, 1000), depth=16, consts={"Depth": 16, "Mode": '"python"'})
    conform("flagging", "FlagsTrace", [p11.case(rng, h, "all", False) for h in hs], p11.observe, corrupt=p11.corrupt, rule="behaviours of Flags over files; everything through Python")
    conform("flaggers on arrays", "FlagsCheck", [p11.array_case(rng, ["mag", "sclip", "noise"]) for _ in range(run.n(200, 2000))], p11.array_observe, corrupt=p11.array_corrupt,
            rule="seeded random spectrograms in every memory layout")
    conform("kurtosis estimates", "FlagsCheck", [c for c in (p11.estimate_case(rng) for _ in range(run.n(200, 2000))) if c["src"]["nf"] > 0], p11.estimate_observe, corrupt=p11.estimate_corrupt,
            rule="seeded random spectrograms in every memory layout, as arrays and as channels")
    # drift planes
    planes = [dict(c, cmds=["mode mirror"] + c["cmds"], stage=c["stage"] + 1, reads=[i + 1 for i in c["reads"]], seen=[i + 1 for i in c["seen"]])
              for c in (p13.case(rng, flag=True) for _ in range(run.n(120, 3000)))]
    for cfg in ("DriftCheck", "DriftCheckFlags"):
        conform("drift planes" if cfg == "DriftCheck" else "flag counts", "DriftCheck", planes, p13.observe, corrupt=p13.corrupt if cfg == "DriftCheck" else p14.corrupt, cfg=cfg,
                rule="channels, scans, targets and cadences of files, flagged and integrated from Python")
    # the pipeline
    for i, (mode, q, th) in enumerate([("scan", 90, 900), ("target", 30, 300), ("cadence", 30, 350)]):
        conform("tones through a %s" % mode, "ToneCheck", piped(p23.cases(rng, run.scratch, mode, run.n(q, th), 10000 * i)), p23.observe, corrupt=p23.corrupt, case_timeout=120,
                rule="seeded random files with drifting tones, the whole pipeline called from Python")
    # lists of hits, and files of results
    hs = run.behaviours("HitsGen", num=run.n(60, 600), depth=12, consts={"Depth": 12, "Ops": '{"make", "filterlist", "getlist"}'})
    conform("lists of hits", "HitsTrace", [moded("hits")(p17.case(rng, h, True)) for h in hs], p17.observe, corrupt=p17.corrupt, rule="lists of hits made, filtered and read in Python")
    hs = run.behaviours("StoreGen", num=run.n(60, 1000), depth=20, consts={"Depth": 20})
    conform("files", "StoreTrace", [moded("relay")(p20.case(rng, h, run.scratch, "f%d" % j)) for j, h in enumerate(hs)], p20.observe, corrupt=p20.corrupt,
            rule="histories of Store; every result file is written and read by Python, hits pass through pickles")
