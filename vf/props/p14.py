"""P14: flag counts of drift planes and of the hits found in them; the planes are those of P13."""
from vf.props import p13
from vf.core import exc_of, fmt


def case(rng, long=False, many=""):
    c = p13.case(rng, long=long, many=many)
    if c["p"]["lo"] > 0 or c["p"]["hi"] <= 0 or rng.random() < 0.5:
        return c
    # search the channel read last
    name = c["cmds"][-1].split()[1]
    c["cmds"] += ["ccsetnoise %s %s %s" % (name, fmt(rng.choice([0, 2, 10])), fmt(rng.choice([1, 2, 5, 9]))),
                  "hitsearch %s %s %s %d" % (name, rng.choice(["cc", "lm"]), fmt(rng.choice([1, 3, 8])), rng.choice([1, 2, 3]))]
    c["hits"] = len(c["cmds"]) - 1
    return c


def observe(case, resp):
    r = p13.observe(case, resp)
    if "hits" in case and not r["obs"][-1]["exc"]:
        h = resp[case["hits"]]
        if not h["ok"]:
            raise ValueError("search failed: %s" % h)
        for x in h["hits"]:
            k = x["rfi"]
            r["obs"][-1]["hits"].append({"rate": x["rate"], "chan": x["idx"], "low": k.get("2", -1), "high": k.get("4", -1), "roll": k.get("1", -1)})
    return r


def corrupt(r):
    o = r["obs"][-1]
    if o["exc"]:
        return None
    if o["hits"]:
        o["hits"][-1]["roll"] += 1
    else:
        o[("low", "high", "roll")[len(o["plane"]) % 3]][-1] += 1
    return r


def check(run):
    run.design("DriftMC", consts={"MaxT": run.n(4, 6), "MaxF": run.n(5, 7), "MaxSpan": run.n(7, 12)})
    run.conform("flag counts", "DriftCheck", [case(run.rng) for _ in range(run.n(1500, 15000))], observe, corrupt=corrupt, cfg="DriftCheckFlags",
                rule="seeded random masks of every level in every memory layout, random rate ranges; half of the planes searched for hits")
    run.conform("flag counts of long scans", "DriftCheck", [case(run.rng, True) for _ in range(run.n(24, 400))], observe, corrupt=corrupt, cfg="DriftCheckFlags",
                rule="as above, up to 300 spectra of few channels")
    run.conform("flag counts of planes of many rates or channels", "DriftCheck", [case(run.rng, many=("rates", "channels")[i % 2]) for i in range(run.n(4, 100))], observe, corrupt=corrupt,
                cfg="DriftCheckFlags", rule="as above, up to 300 rates or 520 channels")
