"""P06 objective value: accounting identity, optimality, feasibility verdict."""
from vlib.gen import coin
from vlib.lopf import run

RULE = "a random problem (LP/MILP/QP, single or multi period, feasible or not) solved by PyPSA and, independently, by the reference model"
ASSUMPTIONS = ["HiGHS is trusted on the independently built reference model", "quadratic problems are certified by first-order optimality"]
QUICK, THOROUGH = 140, 1600
REQUIRED = {"optimality_compared": 90, "status_optimal": 90}


def case(rng, mon, i, tier):
    kind = rng.random()
    feat = dict(costs2=0.8, negcost=0.3, ext=0.6)
    losses = 0
    if kind < 0.2:
        feat.update(quad=0.4, T=(1, 3), hub=0.0)
    elif kind < 0.35:
        feat.update(committable=0.5, ramp=0.3)
    elif kind < 0.5:
        feat.update(multi=True)
    elif kind < 0.6:
        feat.update(mod=0.5)
    elif kind < 0.7:
        feat.update(shed=False, sink=False, T=(1, 3))
    elif kind < 0.8:
        losses = 2
        feat.update(lossy=True)
    elif kind < 0.9:
        feat.update(gc=True)
    run(rng, mon, feat, lambda t: False, losses=losses, identity=True)
