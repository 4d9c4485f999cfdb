"""P16: local maxima; planes and record are those of P15."""
from vf.props.p15 import *


def check(run):
    run.design("SearchMC", consts=dict(Methods='{"lm"}', NR=4, NF=4, Vals="{4, 6}", MaxUp=run.n(2, 3)))
    run.conform("candidates", "SearchCheck", [case(run.rng, "lm", ((1, 12), (1, 16))) for _ in range(run.n(1500, 20000))], observe, corrupt=corrupt,
                rule="seeded random planes up to 12 x 16 in every memory layout, thresholds and neighbourhoods")
    run.conform("candidates of any magnitude", "SearchCheck", [in_units(run.rng, case(run.rng, "lm")) for _ in range(run.n(200, 3000))], observe, corrupt=corrupt,
                rule="as above, powers counted in powers of two from 2^-60 to 2^50")
    run.conform("candidates in larger planes", "SearchCheck", [case(run.rng, "lm", ((16, 24), (24, 48))) for _ in range(run.n(40, 1000))], observe, corrupt=corrupt,
                rule="as above, up to 24 x 48")
    run.conform("candidates in planes of many rates or channels", "SearchCheck", [case(run.rng, "lm", (TALL, BROAD)[i % 2], True) for i in range(run.n(12, 300))], observe, corrupt=corrupt,
                rule="few strong bins in planes of up to 300 rates or channels")
