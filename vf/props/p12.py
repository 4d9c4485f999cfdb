"""P12: noise estimates; the histories are those of P11."""
from vf.props.p11 import *


def noise_corrupt(r):
    for s in r["steps"]:
        if s.get("noise", {}).get("set") and s["c"]["lvl"] == "c":
            s["noise"]["floor"] += 7
            return r
    return None


def check(run):
    run.design("FlagsMC", consts={"Vals": run.n("{0, 3}", "{0, 1, 3}")})
    histories(run, [("noise", 14, run.n(200, 3000)), ("noise", 22, run.n(100, 1500)), ("all", 14, run.n(200, 3000)), ("all", 10, run.n(100, 1500), UNITS)])
    run.conform("estimates of arrays", "FlagsCheck", [array_case(run.rng, ["noise"]) for _ in range(run.n(400, 5000))],
                array_observe, corrupt=array_corrupt, rule="seeded random spectrograms in every memory layout")
