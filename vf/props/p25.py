"""P25: power spectra, low-pass filters and the responses of channelizers."""
import os, struct
from vf.arrays import view
from vf.core import exc_of, vec, rnd

ONE = 16384


def spectrum(rng):
    n = rng.choice(list(range(1, 25)) * 2 + [27, 30, 31, 32, 33, 48, 63, 64, 65, 96])
    amp = 8 if n <= 24 else 4 if n <= 64 else 2
    kind = rng.random()
    if kind < 0.6:
        x = [rng.randint(-amp, amp) for _ in range(n)]
    elif kind < 0.8:
        x = [0] * n
        for _ in range(rng.choice([1, 1, 2])):
            x[rng.randrange(n)] = rng.randint(1, amp)
    else:
        p = rng.randint(1, n)
        x = [amp if (i // p) % 2 == 0 else -amp for i in range(n)]
    dt = "f" if rng.random() < 0.93 else rng.choice("diubhHlL")
    if dt in "ubHL":
        x = [abs(v) for v in x]
    cmds = view(rng, "x", dt, [n], x, junk=lambda: rng.choice([1, 7, 50]))[0]
    k = len(cmds)
    return {"kind": "spectrum" if dt == "f" else "reject", "x": x, "cmds": cmds + ["psd y x", "get y", "get x"], "at": k}


def lowpass(rng):
    taps, q = rng.choice([2, 3, 4, 5, 8, 9, 12, 16, 24, 31, 32, 48, 96]), rng.randint(1, 16)
    p = rng.choice([1, 1, 1, rng.randint(1, q)])
    return {"kind": "filter", "taps": taps, "p": p, "q": q, "cmds": ["firdes h %d %r" % (taps, p / q), "get h"], "at": 0}


def sizes(rng):
    fine, coarse = 2 * rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 16]), rng.choice([2, 2, 4, 4, 6, 8])
    while fine * coarse > 100:
        fine //= 2
        fine += fine % 2
    return fine, coarse, rng.choice([t for t in (1, 1, 2, 2, 3, 4, 4, 5, 6, 8, 12) if t <= fine])


def response(rng):
    f, m, t = sizes(rng)
    return {"kind": "response", "fine": f, "coarse": m, "per": t, "cmds": ["ccresp r %d %d %d" % (f, m, t), "get r"], "at": 0}


def program(rng, scratch, i):
    f, m, t = sizes(rng)
    d = os.path.join(scratch, "g%d" % i)
    out = os.path.join(d, rng.choice(["r.f32", "out", "channelizer_response.f32"]))
    args = [[rng.choice(["-f", "--nchan-per-coarse"]), str(f)], [rng.choice(["-M", "--number-coarse"]), str(m)], [rng.choice(["-N", "--taps-per-channel"]), str(t)]]
    if not out.endswith("channelizer_response.f32") or rng.random() < 0.3:
        args.append([rng.choice(["-o", "--output"]), out])
    if rng.random() < 0.2:
        args.append(["-d", "cpu"])
    rng.shuffle(args)
    args = [a for g in args for a in g]
    return {"kind": "response", "fine": f, "coarse": m, "per": t, "out": out, "at": 1,
            "cmds": ["freshdir " + d, "run %s bliss_generate_channelizer_response %d %s" % (d, len(args), " ".join(args))]}


def observe(c, resp):
    w = resp[c["at"]]
    r = {k: c[k] for k in ("kind", "x", "taps", "p", "q", "fine", "coarse", "per") if k in c}
    r["exc"], r["bytes"] = exc_of(w), 4 * c.get("fine", 0)
    if r["exc"]:
        return r
    if "out" in c:
        if w["rc"] != 0 or not os.path.exists(c["out"]):
            r["exc"] = "the program failed"
            return r
        with open(c["out"], "rb") as fh:
            b = fh.read()
        os.remove(c["out"])
        r["bytes"] = len(b)
        v = struct.unpack("<%df" % (len(b) // 4), b[:len(b) // 4 * 4])
    else:
        v = resp[c["at"] + 1]["a"]["v"]
    r["v"] = [rnd(x, {"spectrum": 4, "reject": 1, "filter": ONE, "response": 10000}[c["kind"]]) for x in v]
    if c["kind"] == "spectrum":
        r["after"] = [int(x) for x in resp[c["at"] + 2]["a"]["v"]]
    return r


def corrupt(r):
    if not r.get("v") or r["kind"] == "reject":
        return None
    i = r["v"].index(max(r["v"]))
    r["v"][i] -= max(r["v"][i] // 50, 60) if r["kind"] == "response" else max(r["v"][i] // 3, 40)
    return r


def check(run):
    run.design("ResponseMC", consts={"MaxLen": run.n(5, 6), "MaxFine": run.n(6, 10), "MaxPer": run.n(4, 6), "MaxCoarse": run.n(3, 4)}, timeout=800)
    rng = run.rng
    run.conform("power spectra", "ResponseCheck", [spectrum(rng) for _ in range(run.n(1200, 12000))], observe, corrupt=corrupt,
                rule="random, sparse and periodic signals of 1-96 samples in views of every layout")
    run.conform("low-pass filters", "ResponseCheck", [lowpass(rng) for _ in range(run.n(300, 3000))], observe, corrupt=corrupt,
                rule="2-96 taps, cutoffs p/q up to 16ths")
    run.conform("channel responses", "ResponseCheck", [response(rng) for _ in range(run.n(200, 1500))], observe, corrupt=corrupt,
                rule="2-32 fine channels, 2-8 coarse channels, 1-12 taps per channel")
    run.conform("bliss_generate_channelizer_response", "ResponseCheck", [program(rng, run.scratch, i) for i in range(run.n(60, 500))], observe, corrupt=corrupt,
                rule="the program's output files, over its options")
