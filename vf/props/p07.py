"""P07: deferred arrays evaluate when and as often as their policy says."""
from vf.core import vec, enc


def command(c):
    op = c["op"]
    return {"array": "new %(a)s f 1 2 %(x)s" % dict(c, x=" ".join([str(len(c["v"]))] + [str(x) for x in c["v"]])),
            "make": "def %(d)s %(pol)s %(n)s" % c, "from": "defarr %(d)s %(a)s" % c, "copy": "dhandle %(d)s %(s)s" % c,
            "to": "dto %(d)s %(s)s" % c, "use": "dkeep %(a)s %(d)s" % c, "fill": "fill %(a)s f %(n)s" % c,
            "drop": "ddrop %(d)s" % c}[op]


def case(hist):
    cmds, plan = [], []
    ds, arrs = set(), set()
    for c in hist:
        cmds.append(command(c))
        plan.append(("step", c))
        if c["op"] in ("make", "from", "copy", "to"):
            ds.add(c["d"])
        if c["op"] == "drop":
            ds.discard(c["d"])
        if c["op"] in ("array", "use"):
            arrs.add(c["a"])
        for d in sorted(ds):
            cmds.append("dcount " + d)
            plan.append(("n", d))
        for a in sorted(arrs):
            cmds.append("get " + a)
            plan.append(("v", a))
    return {"cmds": cmds, "plan": plan}


def observe(case, resp):
    steps = []
    for (kind, x), r in zip(case["plan"], resp):
        if not r["ok"]:
            raise ValueError("a call failed")
        if kind == "step":
            steps.append({"c": x, "val": [enc(v) for v in r["v"]] if x["op"] == "use" else [], "runs": [], "arrays": []})
        elif kind == "n":
            steps[-1]["runs"].append({"h": x, "n": r["n"]})
        else:
            steps[-1]["arrays"].append({"h": x, "v": [enc(v) for v in r["a"]["v"]]})
    return {"steps": steps}


def corrupt(r):
    for s in reversed(r["steps"]):
        for o in s["runs"]:
            o["n"] += 1
            return r
    return None


def check(run):
    run.design("DeferredMC", consts={"MaxLevel": run.n(5, 6)})
    for depth, num in ((12, run.n(400, 5000)), (30, run.n(300, 4000))):
        hs = run.behaviours("DeferredGen", num=num, depth=depth, consts={"Depth": depth})
        run.conform("deferred depth %d" % depth, "DeferredTrace", [case(h) for h in hs], observe, corrupt=corrupt,
                    rule="behaviours of Deferred generated by TLC simulation; run counts and kept arrays read back after every call")
