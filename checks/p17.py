"""P17 network topology: sub-networks, cycles, incidence, adjacency, graph."""
from collections import Counter

import numpy as np
import pandas as pd

import pypsa
from vlib.gen import coin, pick
from vlib.pfgen import PFGen

RULE = "a random network (areas, parallel branches, inactive branches, vintages, links) whose sub-networks, cycle bases and matrices were recomputed with union-find and rank arguments; distinct by features, sizes and period"
ASSUMPTIONS = ["buses of one synchronous area share one carrier", "columns of matrices over several classes follow the order of branches_i() for sub-networks; for networks only the multiset of columns is judged"]
QUICK, THOROUGH = 120, 4000
REQUIRED = {"sub_networks": 500, "cycles": 300, "matrices": 1000, "graphs": 600, "retopology": 60}
PASSIVE = ("Line", "Transformer")


def alive(n, c, i, per):
    d = n.static(c).loc[i]
    return bool(d.active) and (per is None or d.build_year <= per < d.build_year + d.lifetime)


def components(buses, edges):
    par = {b: b for b in buses}

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a

    for a, b in edges:
        par[find(a)] = find(b)
    out = {}
    for b in buses:
        out.setdefault(find(b), []).append(b)
    return sorted(map(sorted, out.values()))


def dress(rng, g, n):
    """Optional investment periods with vintages; cross-checks of odd layouts."""
    if not coin(rng, 0.35):
        return []
    ys = [2020, 2030, 2040]
    n.set_investment_periods(ys)
    for c in ("Line", "Transformer", "Link", "Generator"):
        st = n.static(c)
        for i in st.index:
            if coin(rng, 0.5):
                st.loc[i, "build_year"] = int(pick(rng, [0, 2015, 2020, 2025, 2030, 2040]))
                st.loc[i, "lifetime"] = float(pick(rng, [5, 10, 15, 100]))
    g.sig.append("periods")
    return ys


def topology(mon, n, per, skip):
    act = {c: [i for i in n.static(c).index if alive(n, c, i, per)] for c in PASSIVE}
    edges = [tuple(n.static(c).loc[i, ["bus0", "bus1"]]) for c in PASSIVE for i in act[c]]
    want = components(list(n.buses.index), edges)
    got = sorted(sorted(g.index) for _, g in n.buses.groupby("sub_network"))
    mon.check(got == want, "partition", lambda: f"{got} want {want}")
    big = [w for w in want if not (skip and len(w) == 1)]
    mon.check(len(n.sub_networks) == len(big), "sub_network-count", f"{len(n.sub_networks)} want {len(big)}")
    seen = []
    for name in n.sub_networks.index:
        mon.count("sub_networks")
        s = n.sub_networks.at[name, "obj"]
        bs = list(s.buses_i())
        seen.append(sorted(bs))
        mon.check(s.n is n and s.name == name, "sub_network-object", str(name))
        mon.check(n.sub_networks.at[name, "carrier"] == n.buses.at[bs[0], "carrier"], "sub_network-carrier", str(name))
        for c in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"):
            st = n.static(c)
            w = [i for i in st.index if st.at[i, "bus"] in bs]
            mon.check(list(s.static(c).index) == w, "members:" + c, lambda: f"{list(s.static(c).index)} want {w}")
            for a, df in s.dynamic(c).items():
                full = n.dynamic(c)[a]
                mon.check(list(df.columns) == [i for i in full.columns if i in w] or sorted(df.columns) == sorted(i for i in full.columns if i in w), "members-series:" + c, lambda: f"{a}: {list(df.columns)}")
        bi = list(s.branches_i(active_only=True))
        wb = [(c, i) for c in PASSIVE for i in act[c] if n.static(c).at[i, "bus0"] in bs]
        if per is None:
            mon.check(sorted(bi) == sorted(wb), "members:branches", lambda: f"{bi} want {wb}")
        else:
            sub = list(s.branches_i())
            mon.check(sorted(sub) == sorted(wb), "members:branches-period", lambda: f"{sub} want {wb}")
        # sub.branches() lists the same
        mon.check(sorted(s.branches().index) == sorted(s.branches_i()), "branches-frame", lambda: f"{list(s.branches().index)}")
        # --- cycle basis
        allb = list(s.branches().index)
        C = np.asarray(s.C.todense()) if s.C.shape[1] else np.zeros((len(allb), 0))
        mon.count("cycles", C.shape[1])
        E = len(wb)
        mon.check(C.shape == (len(allb), E - len(bs) + 1), "cycle-count", lambda: f"{C.shape} for {E} branches and {len(bs)} buses")
        K = np.zeros((len(bs), len(allb)))
        ok = True
        for q, (c, i) in enumerate(allb):
            K[bs.index(n.static(c).at[i, "bus0"]), q] += 1
            if n.static(c).at[i, "bus1"] in bs:
                K[bs.index(n.static(c).at[i, "bus1"]), q] -= 1
            if (c, i) not in wb and C.shape[1] and np.abs(C[q]).max() > 0:
                ok = False
        mon.check(ok, "cycle-inactive", "a cycle uses an inactive branch")
        if C.shape[1]:
            mon.check(np.abs(K @ C).max() == 0 and set(np.unique(np.abs(C))) <= {0.0, 1.0}, "cycle-closed", lambda: f"{C.tolist()} {allb}")
            mon.check(np.linalg.matrix_rank(C) == C.shape[1], "cycle-rank", lambda: f"{C.tolist()}")
        # incidence in the order of branches_i, buses_i
        if bi:
            with mon.target("incidence(sub)"):
                I = np.asarray(s.incidence_matrix().todense())
            W = np.zeros((len(bs), len(bi)))
            for q, (c, i) in enumerate(bi):
                W[bs.index(n.static(c).at[i, "bus0"]), q] += 1
                W[bs.index(n.static(c).at[i, "bus1"]), q] -= 1
            mon.count("matrices")
            mon.close(I, W, "incidence:sub", detail=lambda: str(bi))
            with mon.target("adjacency(sub)"):
                A = np.asarray(s.adjacency_matrix().todense())
            W = np.zeros((len(bs), len(bs)))
            for c, i in bi:
                W[bs.index(n.static(c).at[i, "bus0"]), bs.index(n.static(c).at[i, "bus1"])] += 1
            mon.count("matrices")
            mon.close(A, W, "adjacency:sub", detail=lambda: str(bi))
        G = s.graph(include_inactive=False)
        if per is None:
            graph_equal(mon, n, G, bs, bi, "graph:sub")
    mon.check(sorted(seen) == big, "sub_network-buses", lambda: f"{sorted(seen)} want {big}")
    for c in PASSIVE:
        st = n.static(c)
        for i in st.index:
            sn = st.at[i, "sub_network"]
            if i in act[c]:
                mon.check(sn == n.buses.at[st.at[i, "bus0"], "sub_network"] == n.buses.at[st.at[i, "bus1"], "sub_network"], "branch-sub_network", f"{c} {i}: {sn}")
            elif per is not None:
                mon.check(pd.isna(sn), "branch-sub_network:inactive", f"{c} {i}: {sn}")


def graph_equal(mon, n, G, buses, branches, kind, weight=None, inf=False):
    mon.count("graphs")
    mon.check(list(G.nodes) == list(buses), kind + ":nodes", lambda: f"{list(G.nodes)}")
    want = Counter()
    for c, i in branches:
        d = n.static(c).loc[i]
        w = None
        if weight:
            w = float(d.get(weight, 0))
            if np.isinf(w):
                if inf is False:
                    continue
                if inf is not True:
                    w = float(inf)
        want[(frozenset([d.bus0, d.bus1]), (c, i), w)] += 1
    got = Counter((frozenset([u, v]), k, float(d["weight"]) if weight else None) for u, v, k, d in G.edges(keys=True, data=True))
    mon.check(got == want, kind + ":edges", lambda: f"{got - want} / {want - got}")


def matrices(rng, mon, n, ys):
    allc = ["Line", "Transformer", "Link"]
    for _ in range(3):
        comps = [allc[k] for k in rng.permutation(3)[: int(rng.integers(1, 4))]]
        per = pick(rng, [None] + ys)
        order = pd.Index([n.buses.index[k] for k in rng.permutation(len(n.buses))]) if coin(rng) else None
        bo = list(order if order is not None else n.buses.index)
        kw = {}
        if coin(rng, 0.8):
            kw["branch_components"] = comps
        else:
            comps = allc
        if order is not None:
            kw["busorder"] = order
        weights = None
        kwa = dict(kw)
        if coin(rng):
            weights = pd.concat({c: pd.Series(rng.integers(1, 9, len(n.static(c))).astype(float), n.static(c).index) for c in allc if len(n.static(c))}) if any(len(n.static(c)) for c in allc) else None
            if weights is not None:
                kwa["weights"] = weights
        if per is not None:
            kwa["investment_period"] = per
        with mon.target("adjacency"):
            A = np.asarray(n.adjacency_matrix(**kwa).todense())
        W = np.zeros((len(bo), len(bo)))
        for c in comps:
            for i in n.static(c).index:
                if alive(n, c, i, per):
                    W[bo.index(n.static(c).at[i, "bus0"]), bo.index(n.static(c).at[i, "bus1"])] += 1.0 if weights is None else weights[c, i]
        mon.count("matrices")
        mon.close(A, W, "adjacency", detail=lambda: f"{kwa}")
        act = [(c, i) for c in comps for i in n.static(c).index if alive(n, c, i, None)]
        if act:
            with mon.target("incidence"):
                I = np.asarray(n.incidence_matrix(**kw).todense())
            W = np.zeros((len(bo), len(act)))
            for q, (c, i) in enumerate(act):
                W[bo.index(n.static(c).at[i, "bus0"]), q] += 1
                W[bo.index(n.static(c).at[i, "bus1"]), q] -= 1
            mon.count("matrices")
            same = I.shape == W.shape and sorted(map(tuple, I.T)) == sorted(map(tuple, W.T))
            mon.check(same, "incidence", lambda: f"{kw} {I.tolist()} want columns {W.tolist()}")
            if same and kw.get("branch_components"):
                # columns grouped by class in the given order
                mon.close(I, W, "incidence:order", detail=lambda: f"{kw}")
        inc = coin(rng)
        weight = pick(rng, [None, None, "length", "x", "p_nom_max"])
        inf = pick(rng, [False, True, 7.0])
        kwg = dict(include_inactive=inc)
        if weight:
            kwg.update(weight=weight, inf_weight=inf)
        if "branch_components" in kw:
            kwg["branch_components"] = comps
        with mon.target("graph"):
            G = n.graph(**kwg)
        br = [(c, i) for c in comps for i in n.static(c).index if inc or n.static(c).at[i, "active"]]
        graph_equal(mon, n, G, n.buses.index, br, "graph", weight, inf)


def frames(mon, n):
    for f, cs in ((n.branches, ("Line", "Transformer", "Link")), (n.passive_branches, PASSIVE), (n.controllable_branches, ("Link",))):
        d = f()
        want = [(c, i) for c in cs for i in n.static(c).index]
        mon.check(sorted(d.index) == sorted(want), "frame:" + f.__name__, lambda: f"{list(d.index)}")
        for c, i in want:
            for a in ("bus0", "bus1", "active"):
                mon.check(d.at[(c, i), a] == n.static(c).at[i, a], "frame-value", f"{c} {i} {a}")


def case(rng, mon, i, tier):
    g = PFGen(rng, nAC=(1, 7), areas=(1, 4), T=(1, 2), inactive=0.5, parallel=0.6, storage=0.3, store=0.3)
    n = g.build()
    ys = dress(rng, g, n)
    mon.sig(g.signature())
    mon.sample = dict(features=list(map(str, g.signature()))[:20])
    for k in range(2):
        per = pick(rng, [None] + ys)
        skip = coin(rng, 0.25)
        with mon.target("determine_network_topology"):
            n.determine_network_topology(investment_period=per, skip_isolated_buses=skip)
        topology(mon, n, per, skip)
        if k == 0:
            # change the network and determine the topology again
            mon.count("retopology")
            br = [(c, i) for c in PASSIVE for i in n.static(c).index]
            if br:
                c, i = pick(rng, br)
                if coin(rng):
                    n.static(c).loc[i, "active"] = not n.static(c).at[i, "active"]
                else:
                    n.remove(c, i)
    matrices(rng, mon, n, ys)
    frames(mon, n)


def directed():
    def empty(mon):
        mon.count("executions")
        for m in (1, 3):
            n = pypsa.Network()
            n.add("Bus", [f"b{k}" for k in range(m)])
            n.determine_network_topology()
            topology(mon, n, None, False)
            mon.close(np.asarray(n.adjacency_matrix().todense()), np.zeros((m, m)), "adjacency:empty")

    return [("no-branches", empty)]
