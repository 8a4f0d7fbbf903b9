"""P07 global constraints."""
from vlib.gen import coin
from vlib.lopf import run

RULE = "a random problem with a distinct set of global constraints (type, sense, carrier list, period, bus) whose left-hand sides were recomputed from reported decisions"
ASSUMPTIONS = ["storage subject to primary-energy or operational limits counts initial minus final content, as documented"]
QUICK, THOROUGH = 170, 1800
REQUIRED = {"rows:gc": 150, "optimality_compared": 110}


def case(rng, mon, i, tier):
    feat = dict(gc=True, ext=0.85, T=(1, 4), multi=coin(rng, 0.4), retire=0.5, gcstore=0.35, hub=0.0, nDC=0.3, inactive=0.15, vint=0.75)
    run(rng, mon, feat, lambda t: t.startswith("gc-"), p_subset=0.15)
