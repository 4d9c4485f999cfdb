"""P08: a scan's coarse channels partition its band."""
import os
from vf.core import exc_of
from vf.scans import *

# fine channels in the whole band, channel widths (mHz) and time steps (microseconds) around the known channelizations
FINE = [1033216, 999424, 1048576, 8, 1024, 262144, 1000000]
FOFF = [2840, 2930, 2790, 366210000, 2860000, 1000, 2835, 2890, 365210000]
TS = [17980000, 17400000, 18250000, 350, 1060000, 1020000, 1070000, 1000000, 90000, 18200000]


def gen_infer(rng, scratch, n):
    k = rng.choice([1, 1, 2, 3, 4, 7, 16, 64])
    nf = rng.choice(FINE) * k + (rng.choice([0, 0, 0, 1, 2, 5, 8, 1024]) if rng.random() < 0.4 else 0)
    if rng.random() < 0.5:
        u = rng.choice([(1033216, 2840, 17980000), (999424, 2930, 17400000), (1048576, 2790, 18250000), (8, 366210000, 350), (1024, 2860000, 1060000)])
        nf, foff, ts = u[0] * k, u[1] * rng.choice([1, -1]) + rng.choice([0, 0, 40, -40, 60]), u[2] + rng.choice([0, 0, 40000, 60000])
    else:
        foff, ts = rng.choice(FOFF) * rng.choice([1, -1]), rng.choice(TS)
    g = {"kind": "h5", "nf": nf, "fine": 0, "nt": rng.choice([1, 2, 16]), "foff": foff, "tsamp": ts, "num0": 0}
    f = File(rng, g, os.path.join(scratch, "big%d.h5" % n), sparse=True)
    f.opts = [o for o in f.opts if o != "floatattr"]  # the width must be exactly the one meant
    if f.floatattr:
        f.floatattr, f.foff, f.tsamp = False, foff * 1e-9, ts * 1e-6
    fine = rng.choice([0, 0, 0, 0, 512, 1 << 16, nf])
    cmds, plan = f.cmds("s0"), [("setup", None, None)]
    blank = {"d": "", "a": "", "n": 0, "m": 0, "l": [], "t": {"kind": "log", "arg": 0, "tag": ""}}

    def do(c, cmd):
        cmds.append(cmd)
        plan.append(("step", dict(blank, **c), f))
    do({"op": "open", "d": "p", "n": 1, "m": fine}, f.open("p", "s0", fine))
    do({"op": "info", "a": "p"}, "scaninfo p")
    for c in [0, nf // 2, nf - 1, rng.randint(-10, nf + 10)]:
        do({"op": "freq", "a": "p", "n": c}, "scanfreqrel p %d" % c)
    if fine > nf:
        return {"cmds": cmds, "plan": plan, "files": [f]}
    do({"op": "slice", "d": "q", "a": "p", "n": 0, "m": -1}, "scanslice q p 0 -1")
    do({"op": "info", "a": "q"}, "scaninfo q")
    return {"cmds": cmds, "plan": plan, "files": [f]}


def check(run):
    run.design("ScanMC", consts={"MaxLevel": run.n(4, 5)})
    rng = run.rng
    for depth, num in ((10, run.n(200, 2500)), (24, run.n(150, 2000))):
        hs = run.behaviours("ScanGen", num=num, depth=depth, consts={"Depth": depth, "Mode": '"layout"'})
        run.conform("scan layout depth %d" % depth, "ScanTrace", [history_case(rng, h, run.scratch, i) for i, h in enumerate(hs)], observe,
                    corrupt=corrupt, rule="behaviours of Scan generated by TLC simulation over generated filterbank files and in-memory scans")
    run.conform("channelization", "ScanTrace", [gen_infer(rng, run.scratch, i) for i in range(run.n(400, 4000))], observe, corrupt=corrupt,
                rule="seeded band sizes, channel widths and time steps around every known channelization; files without contents")
