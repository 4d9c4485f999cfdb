"""P18: hit filtering; the histories are those of P17 with the filter among the calls."""
from vf.props.p17 import *


def check(run):
    run.design("HitsMC", consts={"MaxLevel": run.n(4, 5)})
    histories(run, OPS18, True, [(10, run.n(300, 3000)), (20, run.n(150, 2000))])
