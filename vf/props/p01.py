"""P01: views alias their buffer; copies do not."""
from vf.core import vec, enc, exc_of


def command(c):
    op, d, a = c["op"], c["d"], c["a"]
    x, y = " ".join(map(str, c["x"])), " ".join(map(str, c["y"]))
    n = " ".join(map(str, c["n"]))
    if op == "new":
        return "new %s %s %s %s" % (d, c["dt"], vec(c["n"]), vec(c["v"]))
    if op == "slice":
        return "slice %s %s %s" % (d, a, x)
    if op == "slice2":
        return "slicem %s %s %s %s %s" % (d, a, "m" if sum(c["x"]) % 2 else "f", x, y)
    if op in ("squeeze", "unsqueeze"):
        return "%s %s %s %s" % (op, d, a, n)
    if op == "reshape":
        return "reshape %s %s %s" % (d, a, vec(c["n"]))
    if op == "borrow":
        return "borrow %s %s %s %s %d" % (d, c["dt"], vec(c["n"]), vec(c["v"]), sum(c["v"]) % 4)
    if op == "lend":
        return "lend %s" % a
    if op == "giveback":
        return "giveback %s" % n
    if op in ("handle", "copy", "copyto", "todev", "share"):
        return "%s %s %s" % (op, d, a)
    if op == "fill":
        return "fill %s %s %s" % (a, "fbiu"[c["n"][0] % 4], n)
    if op == "sassign":
        return "sassign %s %s %s" % (d, a, x)
    if op == "sassigns":
        return "sassigns %s %s %s %s" % (d, a, x, y)
    if op == "drop":
        return "drop %s" % a
    raise ValueError(op)


def case(hist):
    cmds, plan, live = [], [], []
    for c in hist:
        cmds.append(command(c))
        plan.append(("step", c))
        cmds.append("lent")
        plan.append(("lent", c))
        # which handles exist: a failed call binds nothing, so ask for all four names every time
        for h in "pqrs":
            cmds.append("probe %s" % h)
            plan.append(("get", h))
    return {"cmds": cmds, "plan": plan}


def observe(case, resp):
    steps = []
    for (kind, x), r in zip(case["plan"], resp):
        if kind == "step":
            steps.append({"c": x, "exc": exc_of(r), "obs": []})
            if x["op"] == "share":
                steps[-1]["got"] = {"shape": r["shape"], "v": [enc(v) for v in r["v"]]} if r["ok"] else {}
        elif kind == "lent":
            steps[-1]["lent"] = [{"shape": t["shape"], "v": [enc(v) for v in t["v"]]} for t in r["lent"]]
        elif r["ok"]:
            a = r["a"]
            steps[-1]["obs"].append({"h": x, "shape": a["shape"], "dt": a["dt"], "v": [enc(v) for v in a["v"]],
                                     "at": [enc(v) for v in r["at"]], "numel": r["numel"], "size": r["size"], "refused": r["refused"]})
        elif r["exc"] != "missing":
            raise ValueError("cannot read handle")
    return {"steps": steps}


def corrupt(r):
    """A single element of one late observation changed."""
    for s in reversed(r["steps"]):
        for o in s["obs"]:
            if o["v"]:
                o["v"][len(o["v"]) // 2] += 1
                return r
    return None


def check(run):
    run.design("ViewsMC", consts={"MaxLevel": run.n(3, 4)})
    for depth, num in ((run.n(10, 12), run.n(300, 3000)), (run.n(25, 30), run.n(150, 1500))):
        hs = run.behaviours("ViewsGen", num=num, depth=depth, consts={"Depth": depth})
        run.conform("views depth %d" % depth, "ViewsTrace", [case(h) for h in hs], observe, corrupt=corrupt,
                    rule="behaviours of Views generated by TLC simulation, every live handle read back after every call")
