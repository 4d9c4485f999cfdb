"""Replays calls on objects of the four levels (channel, scan, target, cadence)."""
from vf.core import exc_of, vec, fmt, enc, rnd

UP = {"c": "s", "s": "t", "t": "k"}
DOWN = {v: k for k, v in UP.items()}
WRAP = {"c": "scanmap", "s": "target", "t": "cadence"}


class Objects:
    """Knows level and arity of every object of a history, to be able to read all of them at the end."""

    def __init__(self):
        self.shape = {}  # name -> (level, nested list of member counts)

    def note(self, c):
        op, sh = c["op"], self.shape
        if op == "make":
            sh[c["d"]] = ("c", None)
        elif op == "wrap":
            lvl = sh[c["l"][0]][0]
            sh[c["d"]] = (UP[lvl], [sh[x][1] for x in c["l"]])
        elif op == "pick":
            lvl, x = sh[c["a"]]
            sh[c["d"]] = (DOWN[lvl], x[c["n"] - 1])
        elif op != "get":
            sh[c["d"]] = sh[c["a"]]

    def paths(self, name):
        def walk(lvl, x):
            if lvl == "c":
                return [[]]
            return [[i + 1] + p for i, y in enumerate(x) for p in walk(DOWN[lvl], y)]
        lvl, x = self.shape[name]
        return lvl, walk(lvl, x)


def descend(lvl, name, path):
    """Commands that make the member of an object available as a channel; returns (commands, channel name)."""
    cmds = []
    for j in path:
        if lvl == "k":
            cmds.append("ktarget _t %s %d" % (name, j - 1))
            lvl, name = "t", "_t"
        elif lvl == "t":
            cmds.append("tscan _s %s %d" % (name, j - 1))
            lvl, name = "s", "_s"
        else:
            cmds.append("scanread %s %d 0" % (name, j - 1))
            lvl, name = "c", "last"
    return cmds, name


def structural(c, lvl):
    """Commands of handle, wrap and pick, or None."""
    op, d, a = c["op"], c["d"], c["a"]
    if op == "wrap":
        return ["%s %s %d %s" % (WRAP[lvl], d, len(c["l"]), " ".join(c["l"]))]
    if op == "pick":
        j = c["n"] - 1
        return {"k": ["ktarget %s %s %d" % (d, a, j)], "t": ["tscan %s %s %d" % (d, a, j)],
                "s": ["scanread %s %d 0" % (a, j), "cchandle %s last" % d]}[lvl]
    if op == "handle":
        return {"c": ["cchandle %s %s" % (d, a)], "s": ["scanhandle %s %s" % (d, a)]}.get(lvl)
    return None


class Plan(list):
    """Steps of a history: (call, number of commands); "drop" first so that a failed read leaves no stale channel."""

    def __init__(self):
        self.cmds = []

    def setup(self, cmd):
        self.cmds.append(cmd)
        self.append((None, 1))

    def step(self, c, cmds):
        self.cmds += cmds
        self.append((c, len(cmds)))


def steps(plan, resp, see):
    """see(call, responses) -> observation of a call all of whose commands succeeded."""
    out, i = [], 0
    for c, n in plan:
        rs = resp[i:i + n]
        i += n
        if c is None:
            if not rs[0]["ok"]:
                raise ValueError("setup failed: %s" % rs[0])
            continue
        out.append(dict({"c": c}, **see(c, rs)))
    return out


def first_exc(rs):
    return next((exc_of(r) for r in rs if not r["ok"]), "")
