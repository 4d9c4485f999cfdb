"""P17: hits of channels, scans, targets and cadences; the histories also serve P18."""
from vf.arrays import view
from vf.levels import *

OPS17 = '{"make", "handle", "search", "search2", "set", "setlazy", "wrap", "wrap2", "pick", "get", "get2", "list"}'
OPS18 = '{"make", "handle", "search", "set", "setlazy", "filter", "filter2", "wrap", "wrap2", "pick", "get", "get2", "list", "filterlist", "getlist"}'
FIELDS = ("idx", "rate", "binw", "cc")


def random_hit(rng):
    drift = rng.choice([0, 0, 1, 100, 999, 1001, 1500, 20000, 250000000, 1900000000]) * rng.choice([1, -1])
    return {"idx": rng.randint(0, 1000), "rate": rng.randint(0, 99), "freq": rng.randint(1, 1 << 22), "t0": rng.randint(0, 9 * 10 ** 8), "dur": rng.randint(0, 10000),
            "drift": drift, "power": rng.randint(-5, 1000), "snr": [rng.randint(-5, 99) * 1000, 0], "bw": rng.randint(0, 10 ** 6), "binw": rng.randint(0, 50), "span": rng.randint(0, 300),
            "cc": rng.randint(0, 70), "low": rng.choice([0, 0, 0, 1, 3, 255, 256]), "high": rng.choice([0, 1, 9]), "roll": rng.choice([0, 0, 0, 1, 200, 512])}


def tokens(rng, h):
    """A hit as harness tokens.  Counts of zero may be missing altogether."""
    cnt = [(k, h[n]) for k, n in ((2, "low"), (4, "high"), (1, "roll")) if h[n] or rng.random() < 0.7]
    rng.shuffle(cnt)
    return "%d %s %s %s %d %s %s %d %s %s %d %d %d %s" % (
        h["idx"], fmt(h["freq"] / 1024), fmt(h["t0"]), fmt(h["dur"] / 4), h["rate"], fmt(h["drift"] / 1e9), fmt(h["power"]), h["span"], fmt(h["snr"][0] / 1000),
        fmt(h["bw"] / 16), h["binw"], h["cc"], len(cnt), " ".join("%d %d" % x for x in cnt))


def seen_hit(h):
    q = h["rfi"]
    return {"idx": h["idx"], "rate": h["rate"], "freq": enc(h["freq"], 1024), "t0": rnd(h["t0"], 1), "dur": enc(h["dur"], 4), "drift": rnd(h["drift"], 1e9),
            "power": enc(h["power"]), "snr": rnd(h["snr"], 1000), "bw": enc(h["bw"], 16), "binw": h["binw"], "cc": h["cc"], "span": h["span"],
            "low": q.get("2", 0), "high": q.get("4", 0), "roll": q.get("1", 0)}


def case(rng, hist, flagged=False):
    plan, objs = Plan(), Objects()
    srcs, opts = [], [("cc" if rng.random() < 0.5 else "lm", rng.choice([2, 3, 5, 8]), rng.choice([1, 1, 2, 3])) for _ in range(2)]
    for j in range(3):
        nr, nf, nt = rng.randint(1, 8), rng.randint(1, 14), rng.choice([1, 2, 4, 16])
        rates = [rng.choice([0, 1, -1, 3, 7, -7]) * 250000000 if not flagged else rng.choice([0, 500, -900, 1100, -250000000]) for _ in range(nr)]
        md = {"fch1": rng.randint(1000, 9000) * 64, "foff": rng.choice([-1, 1]) * rng.randint(1, 9), "t0": rng.randint(3000000, 3800000) * 270, "tsamp": rng.randint(1, 80), "nt": nt,
              "rates": rates, "floor": rng.choice([0, 1, 3]), "num": rng.choice([0, 1, 2, 40])}
        noise = rng.choice([1, 2, 4])
        n = nr * nf
        v = [rng.choice([0, 1, 2, 3, rng.randint(0, 60)]) for _ in range(n)]
        flag = (lambda: rng.choice([0, 0, 0, 1, 2, 256])) if flagged else (lambda: rng.choice([0, rng.randint(0, 16), 256 * rng.randint(0, 3), rng.randint(0, 3000)]))
        for cmd in view(rng, "pa%d" % j, "f", [nr, nf], v)[0]:
            plan.setup(cmd)
        for x in ("lo", "hi", "ro"):
            for cmd in view(rng, "%s%d" % (x, j), "u", [nr, nf], [flag() for _ in range(n)])[0]:
                plan.setup(cmd)
        plan.setup("plane P%d pa%d lo%d hi%d ro%d %d %d %s" % (j + 1, j, j, j, j, nt, nr, " ".join(
            "%d %s %d %d" % (i, fmt(r / 1e9), i, rng.choice([1, 1, 4])) for i, r in enumerate(rates))))
        plan.setup("newfill sd%d f 2 %d %d f 0" % (j + 1, nt, nf))
        plan.setup("newfill sm%d b 2 %d %d i 0" % (j + 1, nt, nf))
        hits = [random_hit(rng) for _ in range(rng.choice([0, 1, 2, 5, 12]) if rng.random() > 0.01 else rng.choice([70, 260]))]
        src = {"set": j < 2, "list": hits, "cands": [], "md": md, "noise": noise}
        src["tok"] = "%d %s" % (len(hits), " ".join(tokens(rng, h) for h in hits))
        for o in opts:
            plan.setup("proto P%d %d %d %s %d %d" % (j + 1, md["floor"], noise, *o))
        plan.setup("hlist L%d %s" % (j + 1, src["tok"]))
        srcs.append(src)
    first = len(plan)
    for c in hist:
        emit(plan, objs, c, srcs, opts)
    rest = [(n, lvl, p) for n in objs.shape for lvl, ps in [objs.paths(n)] for p in ps]
    rng.shuffle(rest)
    for n, lvl, p in rest[:14]:
        emit(plan, objs, {"op": "get", "d": "", "a": n, "n": 0, "l": p, "lvl": lvl}, srcs, opts)
    return {"cmds": plan.cmds, "plan": list(plan), "srcs": srcs}


def emit(plan, objs, c, srcs, opts):
    op, d, a, n = c["op"], c["d"], c["a"], c["n"]
    lvl = objs.shape[a][0] if a in objs.shape else objs.shape[c["l"][0]][0] if op == "wrap" else "c"
    if op == "make":
        s = srcs[n - 1]
        m = s["md"]
        cmds = ["cc %s sd%d sm%d %s %s %s %s %d src" % (d, n, n, fmt(m["fch1"] / 1024), fmt(m["foff"] / 1024), fmt(m["tsamp"] / 4), repr(m["t0"] / 86400), m["num"]),
                "ccsetplane %s P%d" % (d, n), "ccsetnoise %s %d %d" % (d, m["floor"], s["noise"])]
        if s["set"]:
            cmds.append("ccsethits %s %s" % (d, s["tok"]))
    elif op in ("set", "setlazy"):
        cmds = ["cchandle %s %s" % (d, a), "%s %s %s" % ("ccsethits" if op == "set" else "ccsethitsfn", d, srcs[n - 1]["tok"])]
    elif op == "get":
        pre, x = descend(lvl, a, c["l"])
        cmds = pre + ["cchits " + x]
    elif op == "list":
        cmds = ["scanhits " + a]
    elif op == "filterlist":
        cmds = ["hfilter L%d %d" % (n, c["l"][0])]
    elif op == "getlist":
        cmds = ["hget L%d" % n]
    elif op in ("handle", "wrap", "pick"):
        cmds = structural(c, lvl)
    elif op == "search":
        cmds = ["stage %s hits %s %s %s %d %d" % (lvl, d, a, *opts[n - 1])]
    else:
        cmds = ["stage %s filter %s %s %d" % (lvl, d or "_bad", a, n)]
    if op not in ("list", "filterlist", "getlist") and (d or op == "get"):
        objs.note(c)
    plan.step(c, cmds)


def see(c, rs):
    e = {"exc": first_exc(rs)}
    if c["op"] in ("get", "list", "filterlist", "getlist"):
        if c["op"] == "get" and rs[-1].get("exc", "").endswith("logic_error"):  # a channel without hits
            e = {"exc": "", "set": False, "hits": []}
        elif not e["exc"]:
            e.update(set=True, hits=[seen_hit(h) for h in rs[-1]["hits"]])
    return e


def observe(case, resp):
    i, srcs = 0, []
    for j, s in enumerate(case["srcs"]):
        srcs.append({"set": s["set"], "list": s["list"], "md": s["md"], "cands": []})
    where = [k for k, cmd in enumerate(case["cmds"]) if cmd.startswith("proto ")]
    for m, k in enumerate(where):
        srcs[m // 2]["cands"].append([{"rate": h["md"], "chan": h["mc"], "mid": h["cc"], "max": enc(h["max"]), "noise": rnd(h["noise"], 10000), "binw": h["binw"],
                                       "low": h["lo"], "high": h["hi"], "roll": h["roll"]} for h in resp[k]["hits"]])
    return {"srcs": srcs, "steps": steps(case["plan"], resp, see)}


def corrupt(r):
    for n, s in enumerate(r["steps"]):
        if s.get("hits"):
            h = s["hits"][-1]
            f = ["freq", "t0", "dur", "drift", "power", "snr", "bw", "idx", "cc", "roll"][n % 10]
            h[f] += 1 if f != "snr" else 20 + abs(h[f]) // 50
            return r
    return None


def histories(run, ops, flagged, plan):
    for depth, num in plan:
        hs = run.behaviours("HitsGen", num=num, depth=depth, consts={"Depth": depth, "Ops": ops})
        run.conform("hits, depth %d" % depth, "HitsTrace", [case(run.rng, h, flagged) for h in hs], observe, corrupt=corrupt,
                    rule="behaviours of Hits generated by TLC simulation over seeded random planes, metadata and lists; every object read back")


def check(run):
    run.design("HitsMC", consts={"MaxLevel": run.n(4, 5)})
    histories(run, OPS17, False, [(10, run.n(250, 3000)), (18, run.n(150, 2000))])
