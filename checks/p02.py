"""P02 operational and capacity bounds, set-points, modularity."""
import numpy as np

from vlib.gen import coin
from vlib.lopf import run
from vlib.ref import NOM

RULE = "a solved random network with a distinct mix of extendable/modular/fixed/committable/inactive assets and static or time-dependent per-unit limits"
ASSUMPTIONS = ["HiGHS solves the model it is given within 1e-9 tolerances", "bound tolerance 2e-4 + 2e-5 relative"]
QUICK, THOROUGH = 150, 1600
REQUIRED = {"rows:bounds": 4000, "rows:nominal": 200, "rows:modular": 20, "rows:setpoint": 10, "optimality_compared": 90}


def tags(tag):
    return tag.split("-")[0] in ("nominal", "modular", "bounds", "setpoint", "var") or tag == "uc-bounds"


def case(rng, mon, i, tier):
    losses = int(rng.integers(1, 3)) if coin(rng, 0.1) else 0
    feat = dict(lossy=bool(losses), setpoint=0.8, ext=0.6, mod=0.25, nomset=0.25, committable=0.3 if coin(rng, 0.3) else 0.0,
                multi=coin(rng, 0.12), inactive=0.35)
    n, sns, ref, status, cond, xa = run(rng, mon, feat, tags, losses=losses)
    if status != "ok":
        return
    for c, a in NOM.items():
        st = n.static(c)
        for k in st.index:
            if not st.at[k, a + "_extendable"]:
                mon.check(st.at[k, a + "_opt"] == st.at[k, a], "fixed-capacity-opt", f"{c} {k}: {a}_opt={st.at[k, a + '_opt']} but fixed at {st.at[k, a]}")
            elif st.at[k, a + "_mod"] > 0:
                q = st.at[k, a + "_opt"] / st.at[k, a + "_mod"]
                mon.count("modular_assets")
                mon.check(abs(q - round(q)) < 1e-5, "modular-multiple", f"{c} {k}: {st.at[k, a + '_opt']} is not a multiple of {st.at[k, a + '_mod']}")
