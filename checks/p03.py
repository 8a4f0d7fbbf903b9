"""P03 energy continuity of storage units and stores."""
from vlib.gen import coin
from vlib.lopf import run

RULE = "a solved random network with storage whose level recursion (cyclic/initial/per-period, losses, inflow, weightings, activity) was recomputed"
ASSUMPTIONS = ["standing losses are compounded per elapsed hour and not applied to the externally given initial level (documented formulation)", "non-cyclic storage is generated with cyclic_per_period switched off, as PyPSA's flag precedence there is undocumented"]
QUICK, THOROUGH = 140, 1600
REQUIRED = {"rows:storage": 150, "rows:store": 150, "optimality_compared": 90}


def tags(tag):
    return tag in ("storage-unit", "store") or tag.startswith(("bounds-Store", "bounds-StorageUnit", "var-Store", "var-StorageUnit"))


def case(rng, mon, i, tier):
    feat = dict(T=(3, 8), storage=1.0 if coin(rng, 0.8) else 0.0, store=0.9, inflow=0.7, multi=coin(rng, 0.35), retire=0.45, weights=0.9, lines=coin(rng, 0.5),
                nAC=(2, 3), hub=0.0, shed=True, inactive=0.3, gas=0.3, dates=0.5, vint=0.85, dyncost=0.7)
    run(rng, mon, feat, tags, p_subset=0.3)
