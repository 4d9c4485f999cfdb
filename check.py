#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py replay <file>"""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402


def main():
    if sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        core.build(python=v.get("worker") == "Python")
        os.makedirs(core.WORK, exist_ok=True)
        print("\n".join("> %s\n  %s" % (c, json.dumps(r)) for c, r in zip(v["cmds"], core.run_cases([v["cmds"]], core.WORK, worker=getattr(core, v.get("worker", "Conform")))[0])))
        print("reason:", v["why"])
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("vf.props." + pid.lower())
    if not os.environ.get("VERIF_NOBUILD"):
        core.build(python=getattr(mod, "PYTHON", False))
    run = core.Run(pid, tier, seed)
    run.log("built")
    mod.check(run)
    return run.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except core.MachineryError as e:
        print("CHECK ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
