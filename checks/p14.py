"""P14 non-linear (Newton-Raphson) power flow."""
import numpy as np
import pandas as pd

from checks.p15 import link_outputs, slack_of
from vlib.core import Skip
from vlib.gen import R, coin, pick
from vlib.pfgen import Elec, PFGen, injections
from vlib.ref import val

RULE = "a random AC network (parallel/inactive branches, pi and T transformers with taps and phase shifts, standard types, shunts, PV/PQ/slack mixes, single-bus areas, links) whose power-flow result was checked against an independently assembled admittance model; distinct by features and sizes"
ASSUMPTIONS = ["convergence is only demanded where an independent Newton-Raphson from the same flat start converges in at most 5 iterations", "tap changers scale the admittance at their own side"]
QUICK, THOROUGH = 220, 3000
REQUIRED = {"branches": 1200, "converged": 250, "distributed": 60, "newton_compared": 200}


def newton(Y, s, vm, npv, w=None):
    """Own solver in rectangular form of the polar unknowns. Order: slack, pv, pq."""
    N = len(s)
    va = np.zeros(N)
    vm = vm.copy()
    vm[1 + npv:] = 1.0
    ps = 0.0
    npq = N - 1 - npv
    for it in range(6):
        V = vm * np.exp(1j * va)
        mis = V * np.conj(Y @ V) - s + (0 if w is None else w * ps)
        F = np.r_[mis.real[(0 if w is not None else 1):], mis.imag[1 + npv:]]
        if not np.isfinite(F).all():
            return None
        if np.abs(F).max(initial=0) < 1e-9:
            if np.abs(np.abs(V) - 1).max() > 0.25 or np.abs(va).max() > 0.8:
                return None  # ill-conditioned operating point
            return V, it
        # numerical structure: derivatives of V*conj(YV)
        dVa = 1j * np.diag(V)
        dVm = np.diag(np.exp(1j * va))
        I = Y @ V
        dSa = np.diag(np.conj(I)) @ dVa + np.diag(V) @ np.conj(Y @ dVa)
        dSm = np.diag(np.conj(I)) @ dVm + np.diag(V) @ np.conj(Y @ dVm)
        r0 = 0 if w is not None else 1
        J = np.block([[dSa[r0:, 1:].real, dSm[r0:, 1 + npv:].real], [dSa[1 + npv:, 1:].imag, dSm[1 + npv:, 1 + npv:].imag]])
        if w is not None:
            J = np.hstack([J, np.r_[w, np.zeros(npq)][:, None]])
        try:
            dx = np.linalg.solve(J, F)
        except np.linalg.LinAlgError:
            return None
        va[1:] -= dx[: N - 1]
        vm[1 + npv:] -= dx[N - 1: N - 1 + npq]
        if w is not None:
            ps -= dx[-1]
    return None


def gen_weights(m, comp, scheme, custom, t):
    """Documented share of every generator of the area in the total slack power."""
    g = m.generators[m.generators.bus.isin(comp) & m.generators.active]
    if scheme == "p_set":
        w = pd.Series({i: val(m, "Generator", "p_set", i, t) for i in g.index}, dtype=float)
    elif scheme in ("p_nom", "p_nom_opt"):
        w = g[scheme].astype(float)
    elif scheme == "gens":
        w = custom.reindex(g.index).fillna(0.0)
    elif scheme == "buses":
        w = pd.Series(0.0, g.index)
        for b in comp:
            q = g.p_nom[g.bus == b]
            if len(q):
                w[q.index] = custom.get(b, 0.0) * (q / q.sum() if q.sum() else pd.Series(1 / len(q), q.index))
    return w / w.sum() if w.sum() else None


def case(rng, mon, i, tier):
    dist = coin(rng, 0.3)
    g = PFGen(rng, nDC=0.0, nAC=(1, 7), areas=(1, 3), nogen=0.0 if dist else 0.1, signs=0.0 if dist else 0.2, inactive=0.3)
    n = g.build()
    if coin(rng, 0.15):
        # purely resistive area ("DC network" in the documentation)
        n.remove("Transformer", n.transformers.index)
        n.buses["v_nom"] = 380.0
        n.buses["carrier"] = "AC"
        n.lines["type"] = ""
        n.lines["x"] = 0.0
        n.lines["b"] = 0.0
        n.lines["r"] = [R(rng, 0.5, 4, 0.1) for _ in n.lines.index]
        n.generators["control"] = "PQ"
        n.shunt_impedances["b"] = 0.0
        for c in ("Generator", "Load", "StorageUnit", "Store"):
            n.static(c)["q_set"] = 0.0
            n.dynamic(c).q_set = pd.DataFrame(index=n.snapshots)
        mon.count("resistive")
    m = n.copy()
    el = Elec(m)
    comps = el.components()
    slacks = {}
    kw = {}
    scheme, custom = None, {}
    if dist:
        scheme = pick(rng, ["p_set", "p_nom", "p_nom_opt", "gens", "buses"])
        kw = dict(distribute_slack=True)
        # every area needs positive weights
        for c in comps:
            gi = n.generators.index[n.generators.bus.isin(c)]
            if len(gi) and not n.generators.active[gi].any():
                n.generators.loc[gi[0], "active"] = True
            for k in gi:
                n.generators.loc[k, ["p_nom", "p_nom_opt"]] = [R(rng, 10, 100, 5), R(rng, 10, 100, 5)]
                n.generators_t.p_set[k] = [R(rng, 1, 50, 1) for _ in n.snapshots]
            if len(gi) == 0:
                nm = "extra" + c[0]
                n.add("Generator", nm, bus=c[0], p_nom=50, p_nom_opt=40, p_set=7)
        m = n.copy()
        if scheme in ("gens", "buses"):
            n.determine_network_topology()
            sn = n.buses.sub_network
            kw["slack_weights"] = {}
            for name in n.sub_networks.index:
                gi = n.generators.index[(n.generators.bus.map(sn) == name) & n.generators.active]
                if scheme == "buses" and (sn == name).sum() > 1:
                    gi = n.generators.bus[gi].unique()
                s = pd.Series({k: R(rng, 1, 5, 0.5) for k in gi})
                if scheme == "buses" and (sn == name).sum() == 1:
                    custom[n.buses.index[sn == name][0]] = 1.0
                    s = pd.Series({k: max(n.generators.at[k, "p_nom"], 1e-9) for k in gi})
                    kw["slack_weights"][name] = s
                    continue
                if len(n.buses.index[sn == name]) > 1 and coin(rng, 0.3) and len(gi) > 1:
                    s = s.iloc[:-1]
                custom.update(s.to_dict())
                kw["slack_weights"][name] = s if coin(rng) else s.to_dict()
            custom = pd.Series(custom)
        else:
            kw["slack_weights"] = scheme
        mon.count("distributed")
    slacks = {tuple(c): slack_of(m, c) for c in comps}
    mon.sig(g.signature(), scheme)
    mon.sample = dict(features=list(map(str, g.signature())), scheme=scheme)
    sns = list(n.snapshots)
    if coin(rng, 0.3):
        sns = sns[: int(rng.integers(1, len(sns) + 1))]
        kw["snapshots"] = pd.Index(sns)
    try:
        with mon.target("pf", allow=(RuntimeError,)):
            res = n.pf(**kw)
    except RuntimeError as e:
        if "factorize" not in str(e):
            raise
        raise Skip("diverging Newton-Raphson")
    P, Q = injections(m, "p"), injections(m, "q")
    snname = n.buses.sub_network
    mon.check(len(res["converged"].columns) == len(comps), "pf:areas", f"{len(comps)} areas, reported {list(res['converged'].columns)}")
    for comp in comps:
        sg, sb = slacks[tuple(comp)]
        name = snname[comp[0]]
        gens = m.generators[m.generators.bus.isin(comp) & m.generators.active].copy()
        # further slack generators act as PV generators
        gens.loc[(gens.control == "Slack") & (gens.index != sg), "control"] = "PV"
        if sb is None:
            sb = n.sub_networks.at[name, "slack_bus"]
        pv = [b for b in comp if b != sb and ((gens.bus == b) & (gens.control == "PV")).any()]
        pq = [b for b in comp if b != sb and b not in pv]
        order = [sb] + pv + pq
        ix = {b: j for j, b in enumerate(order)}
        N = len(order)
        Y = np.zeros((N, N), complex)
        ks = [k for k, d in el.br.items() if d["active"] and d["b0"] in ix]
        Yk = {}
        for k in ks:
            Yk[k] = el.two_port(k)
            a = [ix[el.br[k]["b0"]], ix[el.br[k]["b1"]]]
            for r in range(2):
                for c in range(2):
                    Y[a[r], a[c]] += Yk[k][r, c]
        sh = m.shunt_impedances[m.shunt_impedances.bus.isin(comp) & m.shunt_impedances.active]
        for k in sh.index:
            Y[ix[sh.at[k, "bus"]], ix[sh.at[k, "bus"]]] += complex(sh.at[k, "g"], sh.at[k, "b"]) * el.vnom[sh.at[k, "bus"]] ** 2
        for t in sns:
            conv = bool(res["converged"].at[t, name])
            S = np.array([complex(P.at[t, b], Q.at[t, b]) for b in order])
            vset = np.array([val(m, "Bus", "v_mag_pu_set", b, t) for b in order])
            w = None
            if dist:
                wg = gen_weights(m, comp, scheme, custom, t)
                w = np.array([wg[gens.index[gens.bus == b]].sum() for b in order])
            mine = newton(Y, S, vset, len(pv), None if w is None else -w) if N > 1 else None
            if N > 1 and mine is not None:
                mon.count("newton_compared")
                if not mon.check(conv, "pf:not-converged", f"{comp} @{t}: independent Newton-Raphson converges in {mine[1]} iterations"):
                    continue
            if not conv:
                mon.count("not_converged")
                continue
            mon.count("converged")
            if N > 1:
                mon.check(float(res["error"].at[t, name]) <= 1e-6, "pf:error", "")
            V = np.array([n.buses_t.v_mag_pu.at[t, b] * np.exp(1j * n.buses_t.v_ang.at[t, b]) for b in order])
            where = lambda: f"{comp} @{t} slack {sb} pv {pv}"
            if mine is not None:
                mon.close(np.abs(V - mine[0]), np.zeros(N), "pf:voltage", 0, 1e-4, where)
            mon.close(n.buses_t.v_ang.at[t, sb], 0.0, "pf:slack-angle", 0, 1e-12, where)
            for b in [sb] + pv:
                mon.close(n.buses_t.v_mag_pu.at[t, b], vset[ix[b]], "pf:v-setpoint", 0, 1e-9, where)
            # network equations: branch powers and bus powers belong to the voltages
            for k in ks:
                d = el.br[k]
                v = np.array([V[ix[d["b0"]]], V[ix[d["b1"]]]])
                s = v * np.conj(Yk[k] @ v)
                df = n.dynamic(k[0])
                mon.count("branches")
                mon.close([df.p0.at[t, k[1]], df.q0.at[t, k[1]], df.p1.at[t, k[1]], df.q1.at[t, k[1]]], [s[0].real, s[0].imag, s[1].real, s[1].imag], "pf:branch", 1e-6, 1e-5, lambda: f"{k} @{t}")
            for k in sh.index:
                v2 = abs(V[ix[sh.at[k, "bus"]]]) ** 2 * el.vnom[sh.at[k, "bus"]] ** 2
                if N > 1:
                    mon.close([n.shunt_impedances_t.p.at[t, k], n.shunt_impedances_t.q.at[t, k]], [sh.at[k, "g"] * v2, sh.at[k, "b"] * v2], "pf:shunt", 1e-6, 1e-6, k)
            # balance at every bus from the reported component powers
            for b in order:
                bal = 0j
                for c in ("Generator", "Load", "StorageUnit", "Store"):
                    st = m.static(c)
                    for k in st.index[(st.bus == b) & st.active]:
                        bal += st.at[k, "sign"] * complex(n.dynamic(c).p.at[t, k], n.dynamic(c).q.at[t, k])
                for k in m.links.index[m.links.active]:
                    for col in m.links.columns:
                        if col.startswith("bus") and m.links.at[k, col] == b:
                            bal -= n.links_t["p" + col[3:]].at[t, k]
                if sg is not None:
                    mon.close([n.buses_t.p.at[t, b], n.buses_t.q.at[t, b]], [bal.real, bal.imag], "pf:bus-injection", 1e-6, 2e-5, lambda: f"{b} of {where()}")
                if N > 1:
                    out = V[ix[b]] * np.conj(Y[ix[b]] @ V)
                    mon.close([n.buses_t.p.at[t, b], n.buses_t.q.at[t, b]], [out.real, out.imag], "pf:balance", 1e-6, 2e-5, lambda: f"{b} of {where()}")
                elif sg is not None:
                    mon.close([n.buses_t.p.at[t, b], n.buses_t.q.at[t, b]], [0, 0], "pf:single-bus", 0, 1e-6, lambda: f"{b}")
            # who deviates from its set-point
            dev = {k: (n.generators_t.p.at[t, k] - val(m, "Generator", "p_set", k, t)) * gens.at[k, "sign"] for k in gens.index}
            if dist:
                tot = sum(dev.values())
                for k in gens.index:
                    mon.close(dev[k], tot * wg.get(k, 0.0), "pf:slack-shares", 1e-6, 2e-5, lambda: f"{k} {scheme} of {where()}: {dev} {dict(wg)}")
            else:
                for k in gens.index:
                    if k != sg:
                        mon.close(dev[k], 0.0, "pf:dispatch:Generator", 0, 1e-9, lambda: f"{k} of {where()}")
            ctl = {sg} | {gens.index[(gens.bus == b) & (gens.control == "PV")][0] for b in pv}
            for k in gens.index:
                if k not in ctl:
                    mon.close(n.generators_t.q.at[t, k], val(m, "Generator", "q_set", k, t), "pf:q-dispatch", 0, 1e-9, lambda: f"{k} of {where()}")
    for c in ("Load", "StorageUnit", "Store"):
        st = m.static(c)
        for k in st.index[st.active]:
            for a in ("p", "q"):
                mon.close([n.dynamic(c)[a].at[t, k] for t in sns], [val(m, c, a + "_set", k, t) for t in sns], f"pf:dispatch:{c}", 0, 1e-9, k)
    link_outputs(mon, n, m, sns, "pf")
