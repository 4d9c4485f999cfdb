"""Operands for array cases: views of every layout with known logical values."""
from vf.core import vec, enc, exc_of

INTS = "iub"


def strides_of(shape):
    s, out = 1, []
    for n in reversed(shape):
        out.insert(0, s)
        s *= n
    return out


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def view(rng, name, dt, shape, vals, junk=None, plain=0.35):
    """Commands that make `name` an array of the given logical values, as a view of a larger array most of the time.
    Returns (commands, base name, base shape, base values, positions (from 1) of the view's elements)."""
    junk = junk if junk is not None else (lambda: rng.choice([0, 1, 3, 99]))
    if rng.random() < plain:
        return (["new %s %s %s %s" % (name, dt, vec(shape), vec(vals))], name, list(shape), list(vals),
                list(range(1, len(vals) + 1)))
    rank = len(shape)
    extra = rng.random() < 0.3  # an additional axis of which one index is kept and squeezed away
    pos_extra = rng.randint(0, rank) if extra else None
    axes = [(rng.choice([0, 0, 1, 2, 5]), rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 0, 1, 2]), n) for n in shape]
    full = [(o, st, ex, n) for (o, st, ex, n) in axes]
    if extra:
        full.insert(pos_extra, (rng.randint(0, 2), 1, rng.randint(0, 2), 1))
    base_shape = [o + st * n + ex for (o, st, ex, n) in full]
    bs = strides_of(base_shape)
    base = [junk() for _ in range(numel(base_shape))]
    fshape = [n for (_, _, _, n) in full]
    fs = strides_of(fshape)
    pos = []
    for k in range(numel(fshape)):
        off = 0
        for d in range(len(fshape)):
            c = (k // fs[d]) % fshape[d]
            off += (full[d][0] + c * full[d][1]) * bs[d]
        pos.append(off + 1)
        base[off] = vals[k]
    b = name + "_b"
    cmds = ["new %s %s %s %s" % (b, dt, vec(base_shape), vec(base))]
    cur = b
    dims = list(range(len(full)))
    rng.shuffle(dims)
    for d in dims:
        o, st, ex, n = full[d]
        if (o, st, ex) == (0, 1, 0) and rng.random() < 0.5:
            continue
        cmds.append("slice %s %s %d %d %d %d" % (name, cur, d, o, o + st * n, st))
        cur = name
    if cur == b:
        cmds.append("handle %s %s" % (name, b))
    if extra:
        cmds.append("squeeze %s %s %d" % (name, name, pos_extra))
    return cmds, b, base_shape, base, pos


def shapes(rng, maxrank=3, maxn=60):
    how = rng.random()
    if maxrank >= 3 and how < 0.08:  # many axes
        while True:
            s = [rng.choice([1, 2, 2, 3, 4, 5]) for _ in range(rng.choice([4, 4, 5]))]
            if numel(s) <= maxn + 40:
                return s
    if maxrank >= 3 and how < 0.11:  # many elements
        while True:
            s = [rng.choice([1, 2, 3, 5, 8, 16, 31, 32, 64, 129, 256, 260, 400, 513]) for _ in range(rng.choice([1, 2, 2, 3]))]
            if 150 <= numel(s) <= 600:
                return s
    while True:
        r = rng.choice([1, 1, 2, 2, 2, 3, 3][:]) if maxrank >= 3 else rng.randint(1, maxrank)
        s = [rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 16, 17, 20]) for _ in range(r)]
        if numel(s) <= maxn:
            return s


def got(r, scale):
    a = r["a"]
    return {"shape": a["shape"], "dt": a["dt"], "v": [enc(x, scale) for x in a["v"]]}


NONE = {"shape": [], "dt": "", "v": []}


class Case(dict):
    """cmds + how to read the responses."""

    def __init__(self, **kw):
        super().__init__(kw)
        self["cmds"] = []
        self["want"] = []

    def do(self, cmd, want=None):
        self["cmds"].append(cmd)
        self["want"].append(want)
        return self

    def responses(self, resp):
        return {w: r for w, r in zip(self["want"], resp) if w}


UNITS = [-60, -30, -12, 12, 24, 36, 44, 50]


def in_units(rng, case, units=UNITS):
    """The same case with powers counted in a power of two: small ones, and large ones like a telescope's."""
    case["cmds"][0] = "@%d %s" % (rng.choice(units), case["cmds"][0])
    return case


def finish_operands(c, names, scale, result="r", overwrite=True):
    """Read the operands after the call, overwrite the result, read them again."""
    for n in names:
        c.do("get " + n, "after:" + n)
    if overwrite:
        c.do("fill %s i 113" % result, "ow")
    for n in names:
        c.do("get " + n, "after2:" + n)


def operands_seen(c, w, names, scale):
    return ([[enc(x, scale) for x in w["after:" + n]["a"]["v"]] for n in names],
            [[enc(x, scale) for x in w["after2:" + n]["a"]["v"]] for n in names])
