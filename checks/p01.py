"""P01 nodal power balance of the optimised dispatch."""
import numpy as np

from vlib.gen import coin
from vlib.lopf import expect, run
from vlib.ref import val

RULE = "a solved random network (feature signature: topology, ports, carriers, signs, time range, activity) whose per-bus per-snapshot balance was recomputed from the reported series"
ASSUMPTIONS = ["HiGHS solves the model it is given within 1e-9 tolerances", "balance tolerance 2e-4 MW + 2e-5 relative"]
QUICK, THOROUGH = 130, 1500
REQUIRED = {"balances": 500, "status_optimal": 80}


def injections(n, t):
    """Power injected at every bus by everything attached to it, from reported series."""
    out = {b: 0.0 for b in n.buses.index}
    size = {b: 1.0 for b in n.buses.index}

    def put(b, v):
        out[b] += v
        size[b] = max(size[b], abs(v))

    for c in ("Generator", "Load", "Store", "StorageUnit"):
        st, p = n.static(c), n.dynamic(c).p
        for i in st.index:
            if c == "Load" and not st.at[i, "active"]:
                continue
            put(st.at[i, "bus"], p.at[t, i] * st.at[i, "sign"])
    inj = dict(out)
    for i in n.links.index:
        for col in n.links.columns:
            if col.startswith("bus") and col[3:].isdigit() and n.links.at[i, col] != "":
                v = -n.links_t["p" + col[3:]].at[t, i]
                put(n.links.at[i, col], v)
    inj = dict(out)
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for i in st.index:
            put(st.at[i, "bus0"], -n.dynamic(c).p0.at[t, i])
            put(st.at[i, "bus1"], -n.dynamic(c).p1.at[t, i])
    return inj, out, size


def case(rng, mon, i, tier):
    losses = int(rng.integers(1, 4)) if coin(rng, 0.15) else 0
    feat = dict(lossy=bool(losses), hub=0.12, multi=coin(rng, 0.1), committable=0.4 if coin(rng, 0.15) else 0.0)
    n, sns, ref, status, cond, xa = run(rng, mon, feat, lambda tag: tag == "balance", losses=losses)
    if status != "ok":
        return
    n._lossy = bool(losses)
    expect(mon, n, sns)
    # whatever is inactive exchanges no power
    for t in ref.sns:
        inj, tot, size = injections(n, t)
        for b in n.buses.index:
            mon.count("balances")
            mon.check(abs(tot[b]) <= 2e-4 + 2e-5 * size[b], "balance:reported", f"bus {b} at {t}: residual {tot[b]} (largest term {size[b]})")
            mon.check(abs(n.buses_t.p.at[t, b] - inj[b]) <= 1e-5 * (1 + size[b]), "balance:buses_t.p",
                      f"bus {b} at {t}: buses_t.p={n.buses_t.p.at[t, b]} injected={inj[b]}")
        for c, attr in (("Generator", "p"), ("Store", "p"), ("StorageUnit", "p"), ("Link", "p0"), ("Line", "p0"), ("Transformer", "p0")):
            for k in n.static(c).index:
                if not ref.act(c, k, t):
                    mon.count("inactive_observed")
                    mon.check(abs(n.dynamic(c)[attr].at[t, k]) <= 1e-9, "inactive:exchanges", f"{c} {k} at {t}: {n.dynamic(c)[attr].at[t, k]}")
