"""P15 linear power flow."""
import numpy as np
import pandas as pd

from vlib.core import Skip
from vlib.gen import coin
from vlib.pfgen import Elec, PFGen, injections
from vlib.ref import val

RULE = "a random network (several AC/DC areas, parallel branches, transformers with taps, phase shifts and types, inactive parts, shunts, multi-port links) whose linear power flow was recomputed from raw inputs with a dense nodal-susceptance model; distinct by features and sizes"
ASSUMPTIONS = ["branches have non-zero series impedance", "the transformer reactance used is x*tap_ratio (documented)"]
QUICK, THOROUGH = 220, 4000
REQUIRED = {"flows": 2500, "buses": 2500, "slack_generators": 500}


def slack_of(n, buses):
    """Documented choice: the generator with control Slack, else the first generator."""
    g = n.generators[n.generators.bus.isin(buses) & n.generators.active]
    if g.empty:
        return None, None
    s = g.index[g.control == "Slack"]
    i = s[0] if len(s) else g.index[0]
    return i, g.at[i, "bus"]


def judge(mon, n, m, el, inj, sns, slacks):
    """n: solved network; m: pristine inputs."""
    for comp, (sg, sb) in slacks:
        carrier = el.carrier[comp[0]]
        ks = [k for k, d in el.br.items() if d["active"] and d["b0"] in comp]
        ix = {b: j for j, b in enumerate(comp)}
        dc = carrier == "DC"
        if sb is None:
            sb = n.sub_networks.set_index("slack_bus").index.intersection(comp)
            sb = sb[0] if len(sb) else comp[0]
        N = len(comp)
        B = np.zeros((N, N))
        for k in ks:
            d = el.br[k]
            b = 1 / (d["reff"] if dc else d["xeff"])
            i, j = ix[d["b0"]], ix[d["b1"]]
            B[i, i] += b
            B[j, j] += b
            B[i, j] -= b
            B[j, i] -= b
        for t in sns:
            p = np.array([inj.at[t, b] for b in comp])
            s = ix[sb]
            adj = -p.sum()
            p[s] += adj
            rhs = p.copy()
            for k in ks:
                d = el.br[k]
                b = 1 / (d["reff"] if dc else d["xeff"])
                rhs[ix[d["b0"]]] += b * d["phi"]
                rhs[ix[d["b1"]]] -= b * d["phi"]
            th = np.zeros(N)
            keep = [j for j in range(N) if j != s]
            if keep:
                th[keep] = np.linalg.solve(B[np.ix_(keep, keep)], rhs[keep])
            mon.count("buses", N)
            mon.close(n.buses_t.p.loc[t, comp], p, "lpf:bus-power", 1e-6, 1e-6, lambda: f"{comp} @{t} slack {sb}")
            if dc:
                mon.close(n.buses_t.v_mag_pu.loc[t, comp], 1 + th, "lpf:dc-voltage", 1e-6, 1e-7, lambda: f"{comp} @{t}")
                mon.close(n.buses_t.v_ang.loc[t, comp], 0 * th, "lpf:dc-angle", 0, 1e-12)
            else:
                mon.close(n.buses_t.v_ang.loc[t, comp], th, "lpf:angle", 1e-6, 1e-7, lambda: f"{comp} @{t} slack {sb}")
                mon.close(n.buses_t.v_mag_pu.loc[t, comp], 1 + 0 * th, "lpf:v-mag", 0, 1e-12)
            for k in ks:
                d = el.br[k]
                b = 1 / (d["reff"] if dc else d["xeff"])
                f = b * (th[ix[d["b0"]]] - th[ix[d["b1"]]] - d["phi"])
                mon.count("flows")
                df = n.dynamic(k[0])
                mon.close([df.p0.at[t, k[1]], df.p1.at[t, k[1]]], [f, -f], "lpf:flow", 1e-6, 1e-5, lambda: f"{k} @{t}")
            if sg is not None:
                mon.count("slack_generators")
                p0 = val(m, "Generator", "p_set", sg, t)
                mon.close(n.generators_t.p.at[t, sg], p0 + adj / m.generators.at[sg, "sign"], "lpf:slack-generator", 1e-6, 1e-6, lambda: f"{sg} @{t}")
    sgs = {sg for _, (sg, _) in slacks}
    for c in ("Generator", "Load", "StorageUnit", "Store"):
        st = m.static(c)
        for i in st.index[st.active]:
            if c == "Generator" and i in sgs:
                continue
            for t in sns:
                mon.close(n.dynamic(c).p.at[t, i], val(m, c, "p_set", i, t), f"lpf:dispatch:{c}", 0, 1e-9, lambda: f"{i} @{t}")
    for i in m.shunt_impedances.index[m.shunt_impedances.active]:
        g = m.shunt_impedances.at[i, "g"] * m.buses.at[m.shunt_impedances.at[i, "bus"], "v_nom"] ** 2
        mon.close(n.shunt_impedances_t.p.loc[sns, i], [g] * len(sns), "lpf:shunt", 1e-9, 1e-9, i)
    link_outputs(mon, n, m, sns, "lpf")


def link_outputs(mon, n, m, sns, tag):
    for i in m.links.index[m.links.active]:
        for t in sns:
            p = val(m, "Link", "p_set", i, t)
            mon.close(n.links_t.p0.at[t, i], p, tag + ":link-p0", 0, 1e-9, lambda: f"{i} @{t}")
            for col in m.links.columns:
                if col.startswith("bus") and col != "bus0" and m.links.at[i, col] != "":
                    k = col[3:]
                    e = val(m, "Link", "efficiency" + ("" if k == "1" else k), i, t)
                    mon.close(n.links_t["p" + k].at[t, i], -p * e, tag + ":link-p" + k, 1e-9, 1e-9, lambda: f"{i} @{t}")


def shunted(m, inj):
    inj = inj.copy()
    for i in m.shunt_impedances.index[m.shunt_impedances.active]:
        b = m.shunt_impedances.at[i, "bus"]
        inj[b] -= m.shunt_impedances.at[i, "g"] * m.buses.at[b, "v_nom"] ** 2
    return inj


def case(rng, mon, i, tier):
    g = PFGen(rng)
    n = g.build()
    mon.sig(g.signature())
    mon.sample = dict(features=list(map(str, g.signature())))
    for stage in range(2 if coin(rng, 0.3) else 1):
        if stage:
            mon.count("second_runs")
            c = ("Line", "Transformer", "Generator", "Load")[int(rng.integers(4))]
            st = n.static(c)
            for k in st.index:
                if coin(rng, 0.3):
                    n.static(c).loc[k, "active"] = not st.at[k, "active"]
        m = n.copy()
        el = Elec(m)
        slacks = [(comp, slack_of(m, comp)) for comp in el.components()]
        inj = shunted(m, injections(m))
        sns = list(n.snapshots)
        kw = {}
        if coin(rng, 0.3):
            sns = sns[: int(rng.integers(1, len(sns) + 1))]
            kw["snapshots"] = pd.Index(sns) if len(sns) > 1 or coin(rng) else sns[0]
        mode = rng.random()
        with mon.target("lpf"):
            if mode < 0.8:
                n.lpf(**kw)
            else:
                n.determine_network_topology()
                n.lpf(skip_pre=False, **kw)
        judge(mon, n, m, el, inj, sns, slacks)
