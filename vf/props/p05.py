"""P05: masked statistics."""
from vf import large
from vf.arrays import *
from vf.core import vec
from vf.props import p04


def gen(rng, far=False):
    op = rng.choice(["mean", "stddev", "var"])
    off = p04.offset(rng, op, far)
    shape = shapes(rng, 3, 80)
    n = numel(shape)
    v = p04.values(rng, n)
    dens = rng.choice([0, 0.1, 0.3, 0.6, 0.9])
    m = [rng.choice([1, 2, 4, 16, 18, 255]) if rng.random() < dens else 0 for _ in range(n)]
    if rng.random() < 0.03:
        m = [1] * n
    # flagged values are enormous: any influence shows
    v = [rng.choice([100000, -99999]) if f and rng.random() < 0.5 else x for x, f in zip(v, m)]
    big = [x if not f else 0 for x, f in zip(v, m)]
    mshape = list(shape)
    if rng.random() < 0.05:
        mshape = mshape[::-1] if mshape != mshape[::-1] else [mshape[0] + 1] + mshape[1:]
        m = [0] * numel(mshape)
        big = v
    axes = p04.shuffled(rng, p04.axes_of(rng, len(shape)))
    c = Case(kind="mred", op=op, axes=axes)
    c["A"], c["B"], c["off"] = (shape, "f", v), (mshape, "b", m), off
    for cmd in view(rng, "a", "f", shape, [x + off for x in v], junk=lambda: 999)[0]:
        c.do(cmd)
    for cmd in view(rng, "b", "b", mshape, m, junk=lambda: rng.choice([0, 1]))[0]:
        c.do(cmd)
    if op != "var" and abs(off) < 10000 and rng.random() < 0.3 and mshape == shape:
        c["kind"], c["m"] = "both", m
        c.do("mmstd r r2 a b %s" % vec(axes), "op").do("get r", "r1").do("get r2", "r2")
    else:
        c.do("mred %s r a b %s" % (op, vec(axes)), "op").do("get r", "r")
    finish_operands(c, "ab", 1)
    return c


def gen_out(rng, far=False):
    while True:
        c = gen(rng)
        if c["kind"] == "mred" and c["op"] != "var" and c["A"][0] == c["B"][0]:
            break
    (shape, _, v), (_, _, m) = c["A"], c["B"]
    d, off = Case(kind="redout", op=c["op"], axes=c["axes"]), p04.offset(rng, c["op"], far)
    d["A"], d["B"], d["off"] = c["A"], c["B"], off
    for cmd in view(rng, "a", "f", shape, [x + off for x in v], junk=lambda: 999)[0]:
        d.do(cmd)
    for cmd in view(rng, "b", "b", shape, m, junk=lambda: rng.choice([0, 1]))[0]:
        d.do(cmd)
    kept = [n for i, n in enumerate(shape) if i not in c["axes"]] if c["axes"] else []
    oshape = kept or [1]
    cmds, b, bshape, base, pos = view(rng, "o", "f", oshape, [7] * numel(oshape), plain=0.15)
    for cmd in cmds:
        d.do(cmd)
    d["base"], d["pos"], d["scale"] = base, pos, p04.SCALE[c["op"]]
    d.do("mredout %s o a b %s" % (c["op"], vec(c["axes"])), "op").do("get " + b, "base")
    finish_operands(d, "ab", 1, result="o")
    return d


def check(run):
    run.design("ArrMC", consts={"MaxDim": run.n(3, 4)})
    run.conform("masked statistics", "ArrayCheck", [gen(run.rng) for _ in range(run.n(3000, 30000))], p04.observe, corrupt=p04.corrupt,
                rule="seeded random data and masks with independent layouts; flagged samples hold extreme values")
    run.conform("masked statistics into a view", "ArrayCheck", [gen_out(run.rng) for _ in range(run.n(600, 6000))], p04.observe, corrupt=p04.corrupt,
                rule="as above, into a view of a caller's array")
    run.conform("elements of any magnitude", "ArrayCheck", [p04.count_in((gen, gen, gen_out)[i % 3](run.rng), run.rng) for i in range(run.n(400, 5000))],
                p04.observe, corrupt=p04.corrupt, rule="the above with elements counted in powers of two from 2^-60 to 2^90")
    run.conform("elements far from zero", "ArrayCheck", [(gen, gen, gen_out)[i % 3](run.rng, True) for i in range(run.n(300, 4000))], p04.observe, corrupt=p04.corrupt,
                rule="the first two with an offset added to every element, and taken out of the results")
    large.check(run, "large arrays", lambda rng: large.reduce(rng, masked=True), run.n(80, 1000))
