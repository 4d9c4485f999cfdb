"""P10: targets and cadences hold only consistent scans and slice them together."""
import os
from vf.core import exc_of
from vf.scans import *


def case(rng, hist, scratch, n):
    files = []
    for j, g in enumerate(hist[0]["srcs"]):
        f = File(rng, g, os.path.join(scratch, "f%d-%d.h5" % (n, j)), name=g["name"], fch1=g["base"] * 1e-7)
        if f.floatattr:  # frequencies must keep the tenths of a Hz
            f.floatattr, f.fch1, f.foff, f.tsamp, f.tstart = False, g["base"] * 1e-7, g["foff"] * 1e-9, g["tsamp"] * 1e-6, f.tstart
            f.opts.remove("floatattr")
        files.append(f)
    cmds, plan = [], []
    used = {c["n"] - 1 for c in hist[1:] if c["op"] == "open"}
    for j in sorted(used):
        for c in files[j].cmds("s%d" % j):
            cmds.append(c)
            plan.append(("setup", None, None))
    S, T, K = {}, {}, {}  # which files stand behind every name
    for c in hist[1:]:
        op, a, d, l = c["op"], c["a"], c["d"], c["l"]
        if op == "open":
            S[d] = files[c["n"] - 1]
            x = S[d].open(d, "s%d" % (c["n"] - 1), c["m"])
        elif op == "slice":
            S[d] = S[a]
            x = "scanslice %s %s %d %d" % (d, a, c["n"], c["m"])
        elif op == "tf":
            x = "scantf %s %s %d %s" % (a, c["t"]["kind"], c["t"]["arg"], c["t"]["tag"])
        elif op == "read":
            x = "scanread %s %d 1" % (a, c["n"])
        elif op == "info":
            x = "scaninfo " + a
        elif op == "target":
            T[d] = [S[s] for s in l]
            x = "target %s %s" % (d, lst(l))
        elif op == "cadence":
            K[d] = [list(T[t]) for t in l]
            x = "cadence %s %s" % (d, lst(l))
        elif op == "tslice":
            T[d] = list(T[a])
            x = "tslice %s %s %d %d" % (d, a, c["n"], c["m"])
        elif op == "kslice":
            K[d] = K[a]
            x = "kslice %s %s %d %d" % (d, a, c["n"], c["m"])
        elif op == "tscan":
            S[d] = T[a][c["n"]]
            x = "tscan %s %s %d" % (d, a, c["n"])
        elif op == "ktarget":
            T[d] = K[a][c["n"]]
            x = "ktarget %s %s %d" % (d, a, c["n"])
        elif op in ("tfreq", "kfreq"):
            x = "%srel %s %d" % (op, a, c["n"])
        else:
            x = "%s %s" % (op, a)
        cmds.append(x)
        plan.append(("step", c, S.get(a)))
        if op == "read":
            cmds.append("log")
            plan.append(("log", None, None))
    return {"cmds": cmds, "plan": plan, "files": files, "used": sorted(used)}


def lst(l):
    return " ".join([str(len(l))] + list(l))


def observe(case, resp):
    steps, i, plan = [], 0, case["plan"]
    while i < len(plan):
        kind, c, f = plan[i]
        r = resp[i]
        i += 1
        if kind != "step":
            if not r["ok"]:
                raise ValueError("setup failed: %s" % r)
            continue
        e = {"c": c, "exc": exc_of(r)}
        op = c["op"]
        if op == "read":
            log = resp[i]["log"]
            i += 1
        if r["ok"]:
            if op == "read":
                e["ch"] = f.see_channel(r, log, True)
            elif op == "info":
                e["info"] = f.see_info(r)
            elif op == "tname":
                e["v"] = [r["src"], r["n"]] if "src" in r else [r["name"], r["n"]]
            elif op == "kcount":
                e["v"] = r["n"]
            elif "v" in r:
                e["v"] = int(r["v"])
        steps.append(e)
    return {"srcs": [dict(f.record(), base=f.g["base"], w=f.g["w"], name=f.src) for f in case["files"]], "steps": steps}


def corrupt(r):
    for s in reversed(r["steps"]):
        if isinstance(s.get("v"), int):
            s["v"] += 1
            return r
        if "info" in s:
            s["info"]["ncoarse"] += 1
            return r
    return None


def check(run):
    run.design("CadenceMC", consts={"MaxLevel": run.n(5, 6)})
    rng = run.rng
    for depth, num in ((16, run.n(250, 3000)), (30, run.n(200, 2500))):
        hs = run.behaviours("CadenceGen", num=num, depth=depth, consts={"Depth": depth, "Plain": "FALSE"})
        run.conform("cadences depth %d" % depth, "CadenceTrace", [case(rng, h, run.scratch, i) for i, h in enumerate(hs)], observe,
                    corrupt=corrupt, rule="behaviours of Cadence generated by TLC simulation over sources of which most agree and some differ in one respect")
