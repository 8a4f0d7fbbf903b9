"""P13 transmission losses in optimisation: the tangent envelope of the loss parabola, balanced and bounded."""
import numpy as np

from vlib.core import Skip
from vlib.gen import coin
from vlib.lopf import optimal, verify, workload
from vlib.ref import branch_impedance, val

RULE = "a solved random network with loss approximation whose loss tangents, nodal balances with half of the loss at either end, capacity bounds including losses and cost optimum were recomputed, and whose reported end flows were compared with the loss parabola"
ASSUMPTIONS = ["extendable branches have finite s_nom_max and extendable branches have fixed impedance, as the approximation requires"]
QUICK, THOROUGH = 70, 2200
REQUIRED = {"rows:loss": 2500, "rows:balance": 500, "optimality_compared": 50, "envelope": 400, "lossy_flows": 150}


def tags(tag):
    return tag == "loss" or tag.startswith(("balance", "kvl", "bounds-Line", "bounds-Transformer", "var-Line", "var-Transformer"))


def case(rng, mon, i, tier):
    k = int(rng.integers(1, 6))
    feat = dict(T=(1, 4), nAC=(2, 5), lines=True, lossy=True, multi=coin(rng, 0.2), storage=0.3, weights=0.5, inactive=0.2, shed=coin(rng, 0.9), dates=0.3)
    n, sns, ref, status, cond, g = workload(rng, mon, feat, 0.2, losses=k)
    xa = verify(mon, n, ref, tags) if status == "ok" else None
    optimal(mon, n, ref, status, cond, xa)
    if status != "ok":
        return
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for b in st.index:
            r = branch_impedance(n, c, b)[1]
            for t in ref.sns:
                if not ref.act(c, b, t):
                    continue
                p0, p1 = float(n.dynamic(c)["p0"].at[t, b]), float(n.dynamic(c)["p1"].at[t, b])
                flow, loss = (p0 - p1) / 2, p0 + p1
                smax = val(n, c, "s_max_pu", b, t) * float(st.at[b, "s_nom_max"] if st.at[b, "s_nom_extendable"] else st.at[b, "s_nom"])
                scale = max(1.0, r * smax**2)
                mon.count("envelope")
                mon.count("lossy_flows", int(loss > 1e-6))
                low = max(0.0, *(2 * r * (j / k * smax) * abs(flow) - r * (j / k * smax) ** 2 for j in range(1, k + 1)))
                mon.check(loss >= low - 1e-5 * scale, "loss-below-envelope", lambda: f"{c} {b}@{t}: loss {loss}, tangents give at least {low} at flow {flow}")
                mon.check(loss <= r * smax**2 + 1e-5 * scale, "loss-above-limit", lambda: f"{c} {b}@{t}: loss {loss}, limit {r * smax**2}")
                # the tangents underestimate the parabola by at most a quarter of a segment squared
                mon.check(loss >= r * flow**2 - r * (smax / k) ** 2 - 1e-5 * scale, "loss-far-below-parabola", lambda: f"{c} {b}@{t}: loss {loss}, parabola {r * flow**2}")
                nom = float(st.at[b, "s_nom_opt"])
                mon.check(max(abs(p0), abs(p1)) - loss / 2 <= val(n, c, "s_max_pu", b, t) * nom - loss + 1e-4 * (1 + nom), "loaded-beyond-rating", lambda: f"{c} {b}@{t}: flow {flow} and loss {loss} exceed the rating {nom}")
