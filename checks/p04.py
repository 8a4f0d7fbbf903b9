"""P04 Kirchhoff's voltage law / linear power flow in optimised flows."""
import numpy as np

from vlib.gen import coin
from vlib.lopf import run
from vlib.ref import branch_impedance

RULE = "a solved random meshed network (lines, transformers, parallel branches, AC and DC parts, inactive branches) whose branch flows were tested for the existence of nodal potentials and re-derived by n.lpf()"
ASSUMPTIONS = ["phase-shifting transformers are outside the linear optimisation (documented)", "transformer reactances are given on the base of s_nom"]
QUICK, THOROUGH = 110, 1300
REQUIRED = {"rows:kvl": 600, "lpf_compared": 60, "optimality_compared": 70}


def case(rng, mon, i, tier):
    multi = coin(rng, 0.15)
    feat = dict(nAC=(3, 6), parallel=0.5, nDC=0.5, trafo=0.5, inactive=0.4, links=0.4, T=(1, 3), storage=0.2, store=0.2, multi=multi, hub=0.0)
    losses = 2 if coin(rng, 0.1) else 0
    feat["lossy"] = bool(losses)
    n, sns, ref, status, cond, xa = run(rng, mon, feat, lambda t: t == "kvl", losses=losses, p_subset=0.15)
    if status != "ok":
        return
    if multi or losses:
        return
    # voltage angles reported by the optimisation belong to the reported flows
    s = list(ref.sns)
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for k in st.index:
            if not ref.act(c, k, s[0]) or n.buses.at[st.at[k, "bus0"], "carrier"] != "AC":
                continue
            x = branch_impedance(n, c, k)[0]
            for t in s:
                d = n.buses_t.v_ang.at[t, st.at[k, "bus0"]] - n.buses_t.v_ang.at[t, st.at[k, "bus1"]]
                f = n.dynamic(c).p0.at[t, k]
                mon.count("angles")
                mon.check(abs(d - x * f) <= 1e-6 + 1e-5 * abs(x * f), "angles:optimize", f"{c} {k}@{t}: v_ang difference {d}, x*p0 {x * f}")
    # re-derive the flows with the linear power flow
    m = n.copy()
    for c, a in (("Generator", "p"), ("StorageUnit", "p"), ("Store", "p"), ("Link", "p0")):
        m.dynamic(c).p_set = n.dynamic(c)[a].reindex(columns=n.static(c).index).copy()
    with mon.target("lpf"):
        m.lpf(sns if sns is not None else None)
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for k in st.index:
            if not ref.act(c, k, s[0]):
                continue
            for t in s:
                a, b = n.dynamic(c).p0.at[t, k], m.dynamic(c).p0.at[t, k]
                mon.count("lpf_compared")
                mon.check(abs(a - b) <= 1e-3 + 1e-5 * abs(a), "lpf:disagrees", f"{c} {k}@{t}: optimise {a} lpf {b}")
