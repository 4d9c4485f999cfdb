"""P09: scan transforms apply once per read, in order, to that scan only."""
from vf.scans import *


def check(run):
    run.design("ScanMC", consts={"MaxLevel": run.n(4, 5)})
    rng = run.rng
    for depth, num, what in ((12, run.n(250, 3000), "pipeline"), (26, run.n(200, 2500), "pipeline"), (30, run.n(80, 1000), "long")):
        hs = run.behaviours("ScanGen", num=num, depth=depth, consts={"Depth": depth, "Mode": '"%s"' % what})
        run.conform("scan pipelines depth %d" % depth, "ScanTrace", [history_case(rng, h, run.scratch, i) for i, h in enumerate(hs)], observe,
                    corrupt=corrupt, rule="behaviours of Scan generated by TLC simulation: transforms, reads, peeks, copies and slices in any order")
