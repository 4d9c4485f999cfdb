"""P15: connected components; the planes and the record also serve P16."""
from vf.arrays import view, in_units
from vf.core import exc_of, vec, fmt, enc, rnd


def plane(rng, nr, nf, sparse=False):
    kind = rng.random()
    if sparse:  # few strong bins, often in long lines
        v = [[0] * nf for _ in range(nr)]
        for _ in range(rng.randint(2, 9)):
            r, f = rng.randrange(nr), rng.choice([rng.randrange(nf), 0, nf - 1, min(nf - 1, 255), min(nf - 1, 256)])
            r = rng.choice([r, r, min(nr - 1, 255), min(nr - 1, 256)])
            dr, df = rng.choice([(0, 0), (0, 0), (0, 1), (1, 0), (1, 1)])
            for i in range(rng.choice([1, 2, 5, 20])):
                if r + i * dr < nr and f + i * df < nf:
                    v[r + i * dr][f + i * df] = rng.choice([8, 20, 40, 60])
        return v
    if kind < 0.3:  # blobs over a quiet floor
        v = [[rng.randint(0, 3) for _ in range(nf)] for _ in range(nr)]
        for _ in range(rng.randint(1, 4)):
            r, f, a = rng.randrange(nr), rng.randrange(nf), rng.randint(8, 60)
            for i in range(nr):
                for j in range(nf):
                    v[i][j] = max(v[i][j], a - rng.choice([4, 9, 15]) * (abs(i - r) + abs(j - f)))
        return v
    if kind < 0.5:  # few values: ties and long groups
        vals = rng.choice([[0, 10], [0, 6, 12], [2, 5, 20]])
        return [[rng.choice(vals) for _ in range(nf)] for _ in range(nr)]
    if kind < 0.6:
        return [[rng.randint(-60, 60) for _ in range(nf)] for _ in range(nr)]
    return [[rng.choice([0, 1, 2, 3, rng.randint(0, 60)]) for _ in range(nf)] for _ in range(nr)]


def case(rng, method, sizes=((1, 12), (1, 16)), sparse=False):
    nr, nf = rng.randint(*sizes[0]), rng.randint(*sizes[1])
    steps = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 16])
    smear = [rng.choice([1, 1, 1, 4, 16]) if rng.random() < 0.6 else 1 for _ in range(nr)]
    p = {"nr": nr, "nf": nf, "v": plane(rng, nr, nf, sparse), "n": [steps * s for s in smear], "floor": rng.choice([0, 0, 1, 3, -2]) if not sparse else rng.choice([0, 1, 3]),
         "power": rng.randint(1, 4), "thr": rng.choice([1, 4, 10, 13, 20, 24]), "d": rng.choice([1, 1, 2, 2, 3, 5])}
    flat = [x for row in p["v"] for x in row]
    cmds = view(rng, "a", "f", [nr, nf], flat)[0]
    for x in ("lo", "hi", "roll"):
        cmds += view(rng, x, "u", [nr, nf], [rng.choice([0, rng.randint(0, 255), rng.randint(0, 2000)]) for _ in flat])[0]
    cmds.append("plane p a lo hi roll %d %d %s" % (steps, nr, " ".join("%d %d %d %d" % (i, i, i, s) for i, s in enumerate(smear))))
    cmds.append("proto p %d %d %s %s %d" % (p["floor"], p["power"], method, fmt(p["thr"] / 2), p["d"]))
    return {"cmds": cmds, "p": p, "method": method, "nb": []}


def mask_case(rng):
    nr, nf = rng.randint(1, 9), rng.randint(1, 12)
    dens = rng.choice([0.1, 0.3, 0.5, 0.8, 1])
    v = [[rng.choice([1, 1, 1, 7, 255]) if rng.random() < dens else 0 for _ in range(nf)] for _ in range(nr)]
    nb = rng.choice([[[-1, 0], [1, 0], [0, -1], [0, 1]],
                     [[i, j] for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)],
                     [[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(rng.randint(0, 5))]])
    cmds = view(rng, "a", "b", [nr, nf], [x for row in v for x in row])[0]
    cmds.append("components a %s" % vec([x for o in nb for x in o]))
    return {"cmds": cmds, "p": {"nr": nr, "nf": nf, "v": v}, "method": "mask", "nb": nb}


TALL, BROAD = ((257, 300), (2, 3)), ((2, 4), (257, 300))


def observe(case, resp):
    for r in resp[:-1]:
        if not r["ok"]:
            raise ValueError("setup failed: %s" % r)
    r = resp[-1]
    rec = {"p": case["p"], "method": case["method"], "nb": case["nb"], "exc": exc_of(r), "hits": []}
    for h in r.get("hits", []):
        loc = [[a + 1, b + 1] for a, b in zip(h["loc"][::2], h["loc"][1::2])]
        e = {"loc": loc}
        if case["method"] != "mask":
            e.update(at=[h["md"] + 1, h["mc"] + 1], mid=[h["cd"] + 1, h["cc"] + 1], snr=rnd(h["snr"], 1000), max=enc(h["max"]),
                     noise=rnd(h["noise"], 10000), binw=h["binw"])
            if not (1 <= e["at"][0] <= case["p"]["nr"] and 1 <= e["at"][1] <= case["p"]["nf"]):
                raise ValueError("candidate outside the plane: %s" % e["at"])
        rec["hits"].append(e)
    return rec


def corrupt(r):
    if not r["hits"]:
        return None
    h = r["hits"][-1]
    kind = len(r["hits"]) % 5 if "at" in h else 4
    if kind == 0:
        h["snr"] += 40 + h["snr"] // 100
    elif kind == 1:
        h["binw"] += 1
    elif kind == 2:
        h["mid"][1] += 1
    elif kind == 3:
        h["noise"] += 12
    else:
        r["hits"].pop()
        if r["method"] == "lm":
            return None
    return r


def check(run):
    run.design("SearchMC", consts=dict(Methods='{"cc"}', **run.n({}, {"NR": 3, "MaxUp": 4})))
    run.conform("candidates", "SearchCheck", [case(run.rng, "cc") for _ in range(run.n(1500, 20000))], observe, corrupt=corrupt,
                rule="seeded random planes up to 12 x 16 in every memory layout, thresholds and neighbourhoods")
    run.conform("candidates of any magnitude", "SearchCheck", [in_units(run.rng, case(run.rng, "cc")) for _ in range(run.n(200, 3000))], observe, corrupt=corrupt,
                rule="as above, powers counted in powers of two from 2^-60 to 2^50")
    run.conform("candidates in larger planes", "SearchCheck", [case(run.rng, "cc", ((16, 24), (24, 48))) for _ in range(run.n(40, 1000))], observe, corrupt=corrupt,
                rule="as above, up to 24 x 48")
    run.conform("candidates in planes of many rates or channels", "SearchCheck", [case(run.rng, "cc", (TALL, BROAD)[i % 2], True) for i in range(run.n(12, 300))], observe, corrupt=corrupt,
                rule="few strong bins in planes of up to 300 rates or channels")
    run.conform("components of masks", "SearchCheck", [mask_case(run.rng) for _ in range(run.n(600, 8000))], observe, corrupt=corrupt,
                rule="seeded random masks up to 9 x 12 in every memory layout, random neighbourhoods")
