"""P19: event searches over cadences with arranged hits."""
from vf.core import exc_of, vec, fmt, enc, rnd

BASE_DAY = 58000
BASE = BASE_DAY * 86400


def tokens(h):
    return "%d %s %s %s %d %s %s %d %s %s 3 7 0" % (h["id"], repr(1000 + h["f"] / 1e6), BASE + h["t"], h["u"], h["id"] % 5, repr(h["d"] / 10), h["p"], 0,
                                                   h["s"], h["b"])


def signal(rng, scans):
    """Where and when a source is seen: a drifting line through some of the scans."""
    f0, d = rng.randint(-30000, 30000), rng.choice([0, 0, 1, -1, 2, 5, -5, 10, 20, -20])
    out = []
    for j, s in enumerate(scans):
        if rng.random() < 0.7:
            jit = rng.choice([0, 0, 0, rng.randint(-200, 200), rng.randint(-6000, 6000)])
            dd = d if rng.random() < 0.7 else max(-20, min(20, d + rng.choice([1, -1, 2, -3])))
            out.append((j, f0 + d * s["t"] // 10 + jit, dd))
    return out


def case(rng):
    n_on, n_off = rng.choice([1, 2, 2, 3, 3, 3, 4]), rng.choice([0, 0, 1, 2, 3])
    order = ["on"] * n_on + ["off"] * n_off
    rng.shuffle(order)
    scans = {"on": [], "off": []}
    for j, kind in enumerate(order):
        scans[kind].append({"t": 300 * j + rng.randint(0, 40), "u": 0, "dt": rng.randint(1, 30), "nt": rng.choice([1, 4, 8]), "hits": []})
    for s in scans["on"] + scans["off"]:
        s["u"] = s["dt"] * s["nt"]
    n = 0

    def put(s, f, d):
        nonlocal n
        n += 1
        odd = rng.random() < 0.1  # a hit that does not cover its whole scan
        s["hits"].append({"id": n, "f": f, "t": s["t"] + (rng.randint(0, 200) if odd else 0), "u": rng.randint(0, 300) if odd else s["u"], "d": d,
                          "p": rng.randint(1, 500), "s": rng.randint(1, 300), "b": rng.randint(0, 90)})
    for _ in range(rng.choice([1, 2, 3, 4]) if rng.random() > 0.03 else rng.choice([20, 40, 80])):
        rfi = rng.random() < 0.3
        for j, f, d in signal(rng, scans["on"] + (scans["off"] if rfi else [])):
            put((scans["on"] + scans["off"])[j], f, d)
    for s in scans["on"] + scans["off"]:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            put(s, rng.randint(-30000, 30000), rng.randint(-20, 20))
        rng.shuffle(s["hits"])
    cmds, names = [], {"on": [], "off": []}
    cmds.append("newfill m b 2 8 4 i 0")
    for kind in ("on", "off"):
        for j, s in enumerate(scans[kind]):
            parts = sorted(rng.randint(0, len(s["hits"])) for _ in range(rng.choice([0, 0, 1, 2])))
            cuts = [0] + parts + [len(s["hits"])]
            ccs = []
            cmds.append("newfill d%s%d f 2 %d 4 f 0" % (kind, j, s["nt"]))
            cmds.append("newfill m%s%d b 2 %d 4 i 0" % (kind, j, s["nt"]))
            for i in range(len(cuts) - 1):
                c = "c%s%d_%d" % (kind, j, i)
                cmds.append("cc %s d%s%d m%s%d 1000 0.001 %d %s %d src" % (c, kind, j, kind, j, s["dt"], repr((BASE + s["t"]) / 86400), i))
                part = s["hits"][cuts[i]:cuts[i + 1]]
                if part or rng.random() < 0.7:
                    cmds.append("ccsethits %s %d %s" % (c, len(part), " ".join(tokens(h) for h in part)))
                ccs.append(c)
            name = "s%s%d" % (kind, j)
            cmds.append("scanmap %s %d %s" % (name, len(ccs), " ".join(ccs)))
            names[kind].append(name)
    targets = [names["on"]]
    off = list(names["off"])
    while off:
        m = rng.randint(1, len(off))
        targets.append(off[:m])
        off = off[m:]
    for j, t in enumerate(targets):
        cmds.append("target t%d %d %s" % (j, len(t), " ".join(t)))
    cmds.append("cadence k %d %s" % (len(targets), " ".join("t%d" % j for j in range(len(targets)))))
    cmds.append("events e k")
    cmds.append("events e k")  # the search leaves the cadence as it was
    return {"cmds": cmds, "on": [s["hits"] for s in scans["on"]], "offs": [h for s in scans["off"] for h in s["hits"]],
            "scans": [{"t": s["t"], "u": s["u"]} for s in scans["on"]]}


def seen(r):
    return [{"ids": [h["idx"] for h in e["hits"]], "freq": rnd(e["freq"] - 1e9), "t0": rnd(e["t0"] - BASE), "t1": rnd(e["t1"] - BASE),
             "drift": rnd(e["drift"], 1000), "power": rnd(e["power"], 1000), "snr": rnd(e["snr"], 1000), "bw": rnd(e["bw"], 1000),
             "all": [[h["freq"], h["t0"], h["drift"], h["power"], h["snr"], h["bw"]] for h in e["hits"]]} for e in r["events"]]


def observe(case, resp):
    for r in resp[:-2]:
        if not r["ok"]:
            raise ValueError("setup failed: %s" % r)
    rec = {"on": case["on"], "offs": case["offs"], "scans": case["scans"], "exc": exc_of(resp[-2]), "events": []}
    if not rec["exc"]:
        rec["events"] = seen(resp[-2])
        if exc_of(resp[-1]) or seen(resp[-1]) != rec["events"]:
            raise ValueError("a second search of the same cadence finds something else")
        by = {h["id"]: h for s in case["on"] for h in s}
        for e in rec["events"]:
            for i, (f, t, d, p, s, b) in zip(e["ids"], e.pop("all")):
                h = by[i]
                if abs(f - 1000 - h["f"] / 1e6) > 1e-9 or t != BASE + h["t"] or abs(d - h["d"] / 10) > 1e-9 or p != h["p"] or s != h["s"] or b != h["b"]:
                    raise ValueError("hit %d changed" % i)
    return rec


def corrupt(r):
    if not r["events"]:
        return None
    e = r["events"][-1]
    kind = len(e["ids"]) + len(r["events"])
    if kind % 4 == 0:
        r["events"].pop()
    elif kind % 4 == 1:
        e["drift"] += 30
    elif kind % 4 == 2:
        e["power"] += 4
    else:
        e["ids"].reverse()
    return r


def check(run):
    run.design("EventsMC", consts=run.n({}, {"NOn": 4, "Drifts": "{0, 5}"}))
    run.design("EventsMC", consts=run.n({"NOn": 2, "MaxHits": 2, "Freqs": "{0, 4000}"}, {"NOn": 2, "MaxHits": 2}))
    run.conform("cadences", "EventsTrace", [case(run.rng) for _ in range(run.n(3000, 40000))], observe, corrupt=corrupt,
                rule="seeded random cadences of drifting signals, interference and single hits in one to four ON and up to three OFF scans")
