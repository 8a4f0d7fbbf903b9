"""P27 spatial clustering: busmaps partition the buses, and clustered networks represent exactly the right content."""
import math

import networkx as nx
import numpy as np
import pandas as pd

import pypsa
from pypsa.clustering import spatial
from vlib.anynet import diff, eqv, view
from vlib.core import Skip, Stop
from vlib.gen import coin, pick

RULE = "a random network and a busmap (random, k-means, hierarchical, modularity or stubs): the busmap was checked as a partition with its documented shape, the clustered network component by component against values computed from the source with plain loops, and totals for conservation; distinct by operation, options and sizes"
ASSUMPTIONS = [
    "attributes without an aggregation strategy agree within each cluster, except in workloads where the refusal is tested",
    "busmaps cover all buses",
    "aggregate_generators_buses is not used (documentation and code disagree on whether it restricts or extends the carriers)",
]
QUICK, THOROUGH = 260, 9000
REQUIRED = {"clustered": 100, "busmaps": 60, "aggregated_groups": 250, "line_groups": 150, "links": 120, "series_points": 3000, "conservation": 300, "refused": 12, "isolation": 60, "stubs": 15, "hac": 15, "kmeans": 15, "greedy": 12}
ONE = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
CARS = ["wind", "gas", "solar pv"]

SUM = {"Generator": ["p_nom", "p_nom_min", "p_nom_max", "p_set", "weight", "p"], "Load": ["p_set", "q_set"], "StorageUnit": ["p_nom", "p_nom_min", "p_nom_max", "inflow"], "Store": ["e_nom", "e_nom_min", "e_nom_max", "p_set"], "ShuntImpedance": []}
WAVG = {"Generator": ["marginal_cost", "capital_cost", "efficiency", "p_max_pu", "p_min_pu"], "Load": [], "StorageUnit": ["marginal_cost", "capital_cost", "max_hours", "p_max_pu"], "Store": ["marginal_cost", "capital_cost"], "ShuntImpedance": []}
MEAN = {"Generator": ["ramp_limit_up", "ramp_limit_down"]}
CONST = {"Generator": {"build_year": 0, "lifetime": np.inf}, "StorageUnit": {"build_year": 0, "lifetime": np.inf}, "Store": {"build_year": 0, "lifetime": np.inf}}
SAME = {"Generator": ["p_nom_extendable", "sign", "committable"], "Load": ["sign"], "StorageUnit": ["p_nom_extendable", "cyclic_state_of_charge", "efficiency_store"], "Store": ["e_nom_extendable", "e_cyclic", "standing_loss"], "ShuntImpedance": ["sign"]}
VARY = {"Generator": ["p_max_pu", "marginal_cost", "p_set", "p"], "Load": ["p_set", "q_set"], "StorageUnit": ["inflow", "p_max_pu", "marginal_cost"], "Store": ["marginal_cost", "p_set"], "ShuntImpedance": []}
DEFAULT = {"p_max_pu": 1.0, "p_min_pu": 0.0, "efficiency": 1.0, "max_hours": 1.0, "weight": 1.0, "lifetime": np.inf}


def km(p, q):
    a, b, c, d = map(math.radians, (p[0], p[1], q[0], q[1]))
    h = math.sin((d - b) / 2) ** 2 + math.cos(b) * math.cos(d) * math.sin((a - c) / 2) ** 2
    return 6371.0 * 2 * math.atan2(math.sqrt(h), math.sqrt(1 - h))


def network(rng, nb=None, branches=True):
    n = pypsa.Network()
    kind = str(pick(rng, ["time", "time", "int", "now", "multi"]))
    T = int(rng.integers(1, 5))
    if kind == "time":
        n.set_snapshots(pd.date_range("2022-01-01", periods=T, freq="h"))
    elif kind == "int":
        n.set_snapshots(range(T))
    elif kind == "multi":
        n.set_snapshots(range(T))
        n.investment_periods = [2020, 2030]
        n.investment_period_weightings.loc[:, :] = rng.uniform(0.5, 3, (2, 2)).round(2)
    n.snapshot_weightings.loc[:, :] = rng.uniform(0.3, 4, (len(n.snapshots), 3)).round(2)
    nb = nb or int(rng.integers(2, 9))
    buses = [f"b{j}" for j in range(nb)]
    rng.shuffle(buses)
    volts = [[380.0], [380.0, 220.0, 110.0]][int(coin(rng))]
    n.add("Carrier", CARS + ["AC"], co2_emissions=rng.uniform(0, 1, 4).round(3), nice_name=["W", "G", "S", "A"])
    n.add("Bus", buses, x=rng.uniform(-20, 30, nb).round(3), y=rng.uniform(-40, 60, nb).round(3), v_nom=[float(pick(rng, volts)) for _ in buses], carrier="AC",
          v_mag_pu_max=rng.uniform(1.0, 1.2, nb).round(3), v_mag_pu_min=rng.uniform(0.8, 1.0, nb).round(3))
    if branches:
        m = int(rng.integers(0, 2 * nb + 2))
        ends = [rng.choice(buses, 2, replace=False) for _ in range(m)]
        if m and coin(rng, 0.6):
            ends = [ends[int(rng.integers(0, max(1, m // 2)))][:: int(pick(rng, [1, -1]))] for _ in range(m)]
        if m:
            n.add("Line", [f"l{j}" for j in range(m)], bus0=[str(e[0]) for e in ends], bus1=[str(e[1]) for e in ends], r=rng.uniform(0.1, 5, m).round(3), x=rng.uniform(0.5, 20, m).round(3),
                  g=rng.uniform(0, 1e-3, m).round(6), b=rng.uniform(0, 1e-2, m).round(6), s_nom=[0.0] * m if coin(rng, 0.15) else rng.uniform(0, 900, m).round(1), s_nom_min=rng.uniform(0, 9, m).round(2),
                  s_nom_max=[float(pick(rng, [np.inf, 1500.0, 2000.0])) for _ in range(m)], s_max_pu=rng.uniform(0.5, 1, m).round(3), num_parallel=rng.integers(1, 4, m).astype(float), terrain_factor=rng.uniform(1, 1.5, m).round(2),
                  capital_cost=rng.uniform(0, 100, m).round(2), length=[0.0] * m if coin(rng, 0.15) else rng.uniform(1, 400, m).round(1), s_nom_extendable=[bool(coin(rng, 0.4)) for _ in range(m)], lifetime=rng.uniform(10, 60, m).round(1),
                  carrier="AC")
            if coin(rng, 0.6):
                sel = [i for i in n.lines.index if coin(rng, 0.6)]
                if sel:
                    n.lines_t["s_max_pu"] = pd.DataFrame(rng.uniform(0.3, 1, (len(n.snapshots), len(sel))).round(4), index=n.snapshots, columns=pd.Index(sel, name="Line"))
            if coin(rng, 0.2):
                n.add("LineType", "own", r_per_length=0.1, x_per_length=0.3, i_nom=0.6)
                n.lines["type"] = "own"
        k = int(rng.integers(0, 5))
        if k:
            ends = [rng.choice(buses, 2, replace=False) for _ in range(k)]
            kw = {}
            if coin(rng, 0.5):
                kw = dict(bus2=[str(pick(rng, buses + [""])) for _ in range(k)], efficiency2=rng.uniform(-1, 1, k).round(3))
            n.add("Link", [f"k{j}" for j in range(k)], bus0=[str(e[0]) for e in ends], bus1=[str(e[1]) for e in ends], p_nom=rng.uniform(0, 90, k).round(2), efficiency=rng.uniform(0.5, 1, k).round(3),
                  length=[float(pick(rng, [0.0, 120.0, 35.5])) for _ in range(k)], capital_cost=rng.uniform(1, 99, k).round(2), carrier=[str(pick(rng, CARS)) for _ in range(k)], p_nom_extendable=[bool(coin(rng)) for _ in range(k)], **kw)
            if coin(rng, 0.6):
                sel = [i for i in n.links.index if coin(rng, 0.7)]
                if sel:
                    n.links_t["p_max_pu"] = pd.DataFrame(rng.uniform(0.3, 1, (len(n.snapshots), len(sel))).round(4), index=n.snapshots, columns=pd.Index(sel, name="Link"))
    same = {(c, a, k): (round(float(rng.uniform(0.2, 1)), 3) if a in ("efficiency_store", "standing_loss") else float(pick(rng, [1.0, -1.0])) if a == "sign" else bool(coin(rng))) for c in ONE for a in SAME[c] for k in CARS + [""]}
    for c in ONE:
        k = int(rng.integers(0, 9)) if coin(rng, 0.8) else 0
        if not k:
            continue
        pre = {"Generator": "g", "Load": "d", "StorageUnit": "u", "Store": "s", "ShuntImpedance": "h"}[c]
        cars = [str(pick(rng, CARS[: int(rng.integers(1, 4))])) for _ in range(k)] if coin(rng, 0.85) else [""] * k
        kw = {} if c == "ShuntImpedance" else {"carrier": cars}
        if c == "ShuntImpedance":
            kw.update(b=rng.normal(size=k).round(4), g=rng.normal(size=k).round(4))
        for a in SAME[c]:
            kw[a] = [same[c, a, cars[j] if c != "ShuntImpedance" else ""] for j in range(k)]
        nom = "e_nom" if c == "Store" else "p_nom"
        for a in SUM[c]:
            kw[a] = rng.uniform(0, 100, k).round(2)
            if a in ("p_nom_max", "e_nom_max"):
                kw[a] = [float(pick(rng, [np.inf, 150.0, 170.5])) for _ in range(k)]
            if a in ("p", "p_set") and c != "Load":
                kw.pop(a)
            if a == nom and coin(rng, 0.3):
                kw[a] = [float(pick(rng, [0.0, 0.0, 12.5])) for _ in range(k)]
        for a in WAVG[c]:
            if coin(rng, 0.7):
                kw[a] = rng.uniform(0.1, 1, k).round(3)
        for a in MEAN.get(c, []):
            if coin(rng, 0.5):
                kw[a] = rng.uniform(0.1, 1, k).round(3)
        if c in CONST:
            kw["build_year"] = rng.integers(1990, 2030, k)
            kw["lifetime"] = rng.uniform(20, 60, k).round(1)
        n.add(c, [f"{pre}{j}" for j in range(k)], bus=[str(pick(rng, buses)) for _ in range(k)], **kw)
        for a in VARY[c]:
            if coin(rng, 0.5):
                sel = [i for i in n.static(c).index if coin(rng, 0.6)]
                if a == "p":
                    sel = list(n.static(c).index)
                if a == "p_set" and c != "Load":
                    continue
                if sel:
                    v = rng.uniform(0.1, 1, (len(n.snapshots), len(sel))).round(4)
                    if coin(rng, 0.2):
                        v[:] = v[0]
                    n.dynamic(c)[a] = pd.DataFrame(v, index=n.snapshots, columns=pd.Index(sel, name=c))
    if coin(rng, 0.3):
        # results of an earlier solve
        for c, a in (("Line", "p0"), ("Line", "mu_upper"), ("Link", "p1"), ("StorageUnit", "state_of_charge"), ("Generator", "status"), ("Bus", "marginal_price"), ("Load", "p")):
            if len(n.static(c)) and coin(rng, 0.6):
                n.dynamic(c)[a] = pd.DataFrame(rng.normal(size=(len(n.snapshots), len(n.static(c)))).round(4), index=n.snapshots, columns=n.static(c).index)
    if coin(rng, 0.5):
        n.add("GlobalConstraint", "co2", type="primary_energy", carrier_attribute="co2_emissions", sense="<=", constant=round(float(rng.uniform(1, 99)), 2))
    return n


def dense(n, c, a, i):
    df = n.dynamic(c)[a] if a in n.dynamic(c) else None
    if df is not None and i in df.columns:
        return df[i].to_numpy(float)
    st = n.static(c)
    return np.full(len(n.snapshots), float(st.at[i, a]) if a in st.columns else 0.0)


def wts(caps):
    s = sum(caps)
    return [x / s for x in caps] if s > 0 else [1 / len(caps)] * len(caps)


def check_one(n, m, bm, c, mon, time, members, agg, strat):
    """members: dict new name -> list of old names; agg: names of aggregated groups."""
    st, new = n.static(c), m.static(c)
    mon.check(sorted(new.index) == sorted(members), f"names:{c}", lambda: f"{c}: expected {sorted(members)}, got {sorted(new.index)}")
    nom = "e_nom" if c == "Store" else "p_nom"
    for name, old in members.items():
        bus = bm[st.at[old[0], "bus"]]
        mon.check(new.at[name, "bus"] == bus, f"bus:{c}", lambda: f"{c} {name}: bus {new.at[name, 'bus']}, expected {bus}")
        if name not in agg:
            for a in st.columns:
                if a in ("bus", "control"):
                    continue
                g, w = new.at[name, a] if a in new else None, st.at[old[0], a]
                mon.check(g == w or (isinstance(w, float) and w != w and g != g), f"carried:{c}.{a}", lambda: f"{c} {name}.{a}: {g!r}, expected {w!r}")
            if time:
                for a, df in n.dynamic(c).items():
                    if old[0] in df.columns:
                        mon.count("series_points", len(df))
                        mon.close(dense(m, c, a, name), df[old[0]].to_numpy(float), f"carried-series:{c}.{a}", rtol=1e-12)
            continue
        mon.count("aggregated_groups")
        mon.sig("group", c, len(old), tuple(sorted(strat)), time)
        w = wts([float(st.at[o, nom]) for o in old]) if nom in st else None
        pw = wts([float(st.at[o, "weight"]) for o in old]) if "weight" in st else None
        rules = {a: "sum" for a in SUM[c]} | {a: "w" for a in WAVG[c]} | {a: "mean" for a in MEAN.get(c, [])} | strat
        for a, r in rules.items():
            if a not in st.columns and a not in n.dynamic(c):
                continue

            def reduce(vals):
                if r == "sum":
                    return sum(vals)
                if r == "w" or r == "capacity_weighted_average":
                    return sum(x * y for x, y in zip(vals, w))
                if r == "weighted_average":
                    return sum(x * y for x, y in zip(vals, pw))
                if r == "weighted_min":
                    return np.min([x / y for x, y in zip(vals, pw)], axis=0)
                if r == "mean":
                    ok = [v for v in vals if not np.all(np.isnan(v))]
                    return sum(ok) / len(ok) if ok else np.nan * vals[0]
                return {"max": np.max, "min": np.min}[r](vals, axis=0)

            want = reduce([np.float64(st.at[o, a]) for o in old]) if a in st.columns else None
            if want is not None:
                got = float(new.at[name, a])
                if not (np.isnan(want) and np.isnan(got)):
                    mon.close(got, want, f"static:{c}.{a}:{r}", rtol=1e-9, atol=1e-12)
            series = a in n.dynamic(c) and any(o in n.dynamic(c)[a].columns for o in old)
            if series and time:
                mon.count("series_points", len(n.snapshots))
                mon.close(dense(m, c, a, name), reduce([dense(n, c, a, o) for o in old]), f"series:{c}.{a}:{r}", rtol=1e-9, atol=1e-12)
        for a, v in CONST.get(c, {}).items():
            if a not in strat:
                mon.check(new.at[name, a] == v, f"reset:{c}.{a}", lambda: f"{c} {name}.{a} = {new.at[name, a]!r}, expected {v!r}")
        for a in SAME[c] + (["carrier"] if "carrier" in st else []):
            if a not in strat:
                mon.check(new.at[name, a] == st.at[old[0], a], f"agreed:{c}.{a}", lambda: f"{c} {name}.{a} = {new.at[name, a]!r}, members have {st.at[old[0], a]!r}")


def conservation(n, m, bm, mon, time):
    """Totals per cluster which no aggregation may change."""
    tot = lambda net, c, a, of: {k: sum((dense(net, c, a, i) if time else np.full(len(net.snapshots), float(net.static(c).at[i, a]))) * 1.0 for i in net.static(c).index if of(net.static(c).at[i, "bus"]) == k) for k in set(map(of, net.static(c).bus))}
    same = lambda b: b
    old = lambda b: bm[b]
    for c, a in (("Load", "p_set"), ("Load", "q_set"), ("StorageUnit", "inflow"), ("Generator", "p_nom"), ("StorageUnit", "p_nom"), ("Store", "e_nom")):
        if not len(n.static(c)):
            continue
        x, y = tot(n, c, a, old), tot(m, c, a, same)
        mon.count("conservation", len(x))
        mon.check(set(x) == set(y), f"conserve-clusters:{c}.{a}", lambda: f"{c}.{a}: clusters {sorted(x)} before, {sorted(y)} after")
        for k in x:
            if k in y:
                mon.close(y[k], x[k] if time else x[k][: len(y[k])], f"conserve:{c}.{a}", rtol=1e-9, atol=1e-9)


def available(n, bm, mapped, time):
    out = {}
    for i in n.generators.index:
        k = bm[n.generators.at[i, "bus"]] if mapped else n.generators.at[i, "bus"]
        pu = dense(n, "Generator", "p_max_pu", i) if time else np.full(len(n.snapshots), float(n.generators.at[i, "p_max_pu"]))
        out[k] = out.get(k, 0) + pu * float(n.generators.at[i, "p_nom"])
    return out


def do_cluster(rng, mon):
    n = network(rng)
    buses = list(n.buses.index)
    k = int(rng.integers(1, len(buses) + 1))
    labels = [f"c{j}" for j in range(k)] if coin(rng, 0.7) else buses[:k]
    bm = {b: str(pick(rng, labels)) for b in buses}
    busmap = pd.Series(bm)
    if coin(rng):
        busmap = busmap.sample(frac=1, random_state=int(rng.integers(0, 1000)))
    busmap.index.name = n.buses.index.name
    opts = {}
    time = True
    if coin(rng, 0.2):
        time = opts["with_time"] = False
    f = 1.0
    if coin(rng):
        f = opts["line_length_factor"] = round(float(rng.uniform(0.5, 2)), 2)
    scale = True
    if coin(rng, 0.3):
        scale = opts["scale_link_capital_costs"] = False
    agg, gstrat, strats, gcar = [], {}, {}, None
    if coin(rng, 0.4):
        opts["aggregate_generators_weighted"] = True
        if coin(rng):
            gcar = opts["aggregate_generators_carriers"] = CARS[: int(rng.integers(1, 3))]
        if coin(rng, 0.6):
            gstrat = opts["generator_strategies"] = {str(a): str(s) for a, s in (("p_max_pu", pick(rng, ["max", "min", "mean", "weighted_average"])), ("p_nom_max", "weighted_min"), ("marginal_cost", pick(rng, ["max", "weighted_average"])), ("p_nom_min", "max")) if coin(rng)}
    pool = [c for c in ONE if not (c == "Generator" and "aggregate_generators_weighted" in opts) and (len(n.static(c)) or coin(rng, 0.3))]
    if coin(rng, 0.8):
        agg = [c for c in pool if coin(rng, 0.6)]
        for c in agg:
            s = {}
            if c == "ShuntImpedance":
                s = {"b": "sum", "g": "sum"}
            elif c != "Load" and coin(rng, 0.4):
                s = {a: str(pick(rng, ["max", "min", "mean"])) for a in WAVG[c] if coin(rng, 0.5)}
                if c == "StorageUnit" and coin(rng):
                    s["efficiency_store"] = "capacity_weighted_average"
                if c == "Store" and coin(rng):
                    s["standing_loss"] = "mean"
            if s:
                strats[c] = s
        opts["aggregate_one_ports"] = {c: {} for c in agg} if coin(rng) else agg
        if strats:
            opts["one_port_strategies"] = strats
    bstrat, lstrat = {}, {}
    if coin(rng, 0.3):
        bstrat = opts["bus_strategies"] = {str(a): str(pick(rng, ["min", "max", "mean"])) for a in ("x", "y", "v_nom", "v_mag_pu_max") if coin(rng, 0.6)}
    if coin(rng, 0.3):
        lstrat = opts["line_strategies"] = {str(a): str(pick(rng, ["min", "max", "sum", "mean"])) for a in ("r", "x", "s_nom", "s_max_pu", "capital_cost", "num_parallel", "lifetime") if coin(rng, 0.4)}
    groupers = []
    if coin(rng, 0.2) and len(n.lines):
        groupers = opts["custom_line_groupers"] = ["build_year"]
        n.lines["build_year"] = [int(pick(rng, [2000, 2010])) for _ in n.lines.index]
    refuse = None
    if coin(rng, 0.15):
        cands = [(c, a) for c in agg + (["Generator"] if "aggregate_generators_weighted" in opts else []) for a in SAME[c] if a not in strats.get(c, {}) and len(n.static(c))]
        if cands:
            c, a = cands[int(rng.integers(len(cands)))]
            i = str(pick(rng, list(n.static(c).index)))
            old = n.static(c).at[i, a]
            n.static(c).loc[i, a] = (not old) if n.static(c)[a].dtype == bool else old + 0.25
            key = lambda o: (bm[n.static(c).at[o, "bus"]], n.static(c).at[o, "carrier"] if "carrier" in n.static(c) else "")
            grouped = c != "Generator" or gcar is None or n.static(c).at[i, "carrier"] in gcar
            others = [o for o in n.static(c).index if o != i and key(o) == key(i)]
            if grouped and others:
                refuse = (c, a)
    if len(n.links) and coin(rng, 0.3):
        n.links["note"] = "x"
    mon.sample = {"buses": bm, "opts": {k: str(v) for k, v in opts.items()}, "sizes": {c: len(n.static(c)) for c in ONE + ("Line", "Link")}, "snapshots": len(n.snapshots)}
    before = view(n)
    try:
        with mon.target("get_clustering_from_busmap"):
            try:
                cl = spatial.get_clustering_from_busmap(n, busmap, **opts) if coin(rng) else n.cluster.get_clustering_from_busmap(busmap, **opts)
            except AssertionError:
                mon.count("refused")
                mon.check(refuse is not None, "refused-agreeing", f"members agree on all attributes without strategy but clustering was refused; options {opts}")
                return
    finally:
        d = diff(before, view(n))
        mon.check(not d, "source-changed", lambda: f"clustering altered the source network: {d}")
    mon.check(refuse is None, "merged-disagreeing", lambda: f"members of one cluster disagree on {refuse} but were merged")
    if refuse:
        return
    m = cl.n
    mon.count("clustered")
    mon.sig("cluster", len(buses), k, tuple(sorted(opts)), tuple(agg), len(n.lines), len(n.links), len(n.investment_periods))
    # buses
    groups = {c: [b for b in buses if bm[b] == c] for c in set(bm.values())}
    mon.check(sorted(m.buses.index) == sorted(groups), "bus-names", lambda: f"buses {sorted(m.buses.index)}, clusters {sorted(groups)}")
    brule = {"x": "mean", "y": "mean", "v_nom": "max", "v_mag_pu_max": "min", "v_mag_pu_min": "max"} | bstrat
    fn = {"mean": lambda v: sum(v) / len(v), "max": max, "min": min, "sum": sum}
    B = {}
    for c, mem in groups.items():
        for a, r in brule.items():
            B[c, a] = fn[r]([float(n.buses.at[b, a]) for b in mem])
            mon.close(float(m.buses.at[c, a]), B[c, a], f"bus:{a}", rtol=1e-10, atol=1e-12)
        mon.check(m.buses.at[c, "carrier"] == "AC", "bus:carrier")
    # time
    if time:
        mon.check(list(m.snapshots) == list(n.snapshots), "snapshots", lambda: f"{list(m.snapshots)}")
        mon.check(m.snapshot_weightings.equals(n.snapshot_weightings), "weightings", "snapshot weightings differ")
        mon.check(list(m.investment_periods) == list(n.investment_periods) and m.investment_period_weightings.equals(n.investment_period_weightings), "periods", "investment periods or their weightings differ")
    after = view(m)
    for c in ("Carrier", "GlobalConstraint"):
        x, y = before["static"][c], after["static"][c]
        bad = [(i, a, x[i][a], y.get(i, {}).get(a)) for i in x for a in x[i] if i not in y or not eqv(x[i][a], y[i].get(a))] + [(i,) for i in y if i not in x]
        mon.check(not bad, f"carried:{c}", lambda: f"{c} differs: {bad[:4]}")
    # one ports
    for c in ONE:
        st = n.static(c)
        members, names = {}, set()
        weighted = c == "Generator" and "aggregate_generators_weighted" in opts
        for i in st.index:
            if (c in agg or weighted) and (not weighted or gcar is None or st.at[i, "carrier"] in gcar):
                nm = (bm[st.at[i, "bus"]] + (" " + st.at[i, "carrier"] if "carrier" in st.columns else "")).strip()
                names.add(nm)
            else:
                nm = i
            members.setdefault(nm, []).append(i)
        check_one(n, m, bm, c, mon, time, members, names, gstrat if weighted else strats.get(c, {}) if c in agg else {})
    conservation(n, m, bm, mon, time)
    if not gstrat.get("p_max_pu") and not strats.get("Generator", {}).get("p_max_pu"):
        a, b = available(n, bm, True, time), available(m, bm, False, time)
        mon.count("conservation", len(a))
        for k_ in a:
            mon.close(b[k_][:1] if not time else b[k_], a[k_][:1] if not time else a[k_], "conserve:available-power", rtol=1e-9, atol=1e-9)
    # lines
    keep = [i for i in n.lines.index if bm[n.lines.at[i, "bus0"]] != bm[n.lines.at[i, "bus1"]]]
    mon.check(sorted(cl.linemap.index) == sorted(keep), "linemap-index", lambda: f"linemap covers {sorted(cl.linemap.index)}, lines between clusters {sorted(keep)}")
    grp = {}
    for i in keep:
        key = (frozenset((bm[n.lines.at[i, "bus0"]], bm[n.lines.at[i, "bus1"]])), *[n.lines.at[i, g] for g in groupers])
        grp.setdefault(key, []).append(i)
    img = {key: {cl.linemap[i] for i in mem} for key, mem in grp.items()}
    mon.check(all(len(s) == 1 for s in img.values()) and len(set().union(*img.values()) if img else ()) == len(img), "linemap", lambda: f"lines between the same clusters are not mapped one to one: {img}")
    mon.check(sorted(m.lines.index) == sorted({x for s in img.values() for x in s}), "line-names", lambda: f"{sorted(m.lines.index)} vs {img}")
    lrule = {"s_nom": "sum", "s_nom_min": "sum", "s_nom_max": "sum", "num_parallel": "sum", "terrain_factor": "mean", "s_max_pu": "cap", "lifetime": "cap", "capital_cost": "lencap", "s_nom_extendable": "any", "r": "par", "x": "par", "g": "ser", "b": "ser"} | lstrat
    for key, mem in grp.items():
        (name,) = img[key]
        mon.count("line_groups")
        c0, c1 = sorted(key[0])
        mon.check({m.lines.at[name, "bus0"], m.lines.at[name, "bus1"]} == {c0, c1}, "line-ends", lambda: f"{name}: {m.lines.at[name, 'bus0']}-{m.lines.at[name, 'bus1']}")
        L = km((B[c0, "x"], B[c0, "y"]), (B[c1, "x"], B[c1, "y"])) * f
        mon.close(float(m.lines.at[name, "length"]), L, "line:length", rtol=1e-8, atol=1e-6)
        v = max(B[c0, "v_nom"], B[c1, "v_nom"])
        # factors per original line
        ln = n.lines
        lf = {i: (L / ln.at[i, "length"] if ln.at[i, "length"] > 0 else L) for i in mem}
        vf = {i: (n.buses.at[ln.at[i, "bus0"], "v_nom"] / v) ** 2 for i in mem}
        w = dict(zip(mem, wts([float(ln.at[i, "s_nom"]) for i in mem])))
        for a, r in lrule.items():
            x = {i: float(ln.at[i, a]) for i in mem}
            if r == "par":
                want = 1 / sum(vf[i] / (lf[i] * x[i]) for i in mem)
            elif r == "ser":
                want = sum(vf[i] * lf[i] * x[i] for i in mem)
            elif r == "cap":
                want = sum(x[i] * w[i] for i in mem)
            elif r == "lencap":
                want = sum(x[i] * lf[i] * w[i] for i in mem)
            elif r == "any":
                want = float(any(x.values()))
            else:
                want = fn[r](list(x.values()))
            mon.close(float(m.lines.at[name, a]), want, f"line:{a}:{r}", rtol=1e-7, atol=1e-12)
        mon.check(m.lines.at[name, "type"] == ln.at[mem[0], "type"] and (not ln.at[mem[0], "type"] or ln.at[mem[0], "type"] in m.line_types.index), "line:type", lambda: f"type of {name}: {m.lines.at[name, 'type']!r}, known types {len(m.line_types)}")
        for g in groupers:
            if g == "build_year":
                mon.check(abs(m.lines.at[name, g] - key[1]) < 1e-6, "line:grouper", lambda: f"{name}.{g} = {m.lines.at[name, g]}, group {key[1]}")
        if time and any(i in n.lines_t.s_max_pu.columns for i in mem):
            x = {i: dense(n, "Line", "s_max_pu", i) for i in mem}
            r = lrule["s_max_pu"]
            want = sum(x[i] * w[i] for i in mem) if r == "cap" else np.array([fn[r](list(t)) for t in zip(*x.values())])
            mon.count("series_points", len(want))
            mon.close(dense(m, "Line", "s_max_pu", name), want, f"line-series:s_max_pu:{r}", rtol=1e-9, atol=1e-12)
    # links
    st = n.links
    ports = [p for p in ("bus0", "bus1", "bus2") if p in st.columns]
    keep = [i for i in st.index if len({bm[st.at[i, p]] for p in ports if st.at[i, p] != ""}) > 1]
    mon.check(sorted(m.links.index) == sorted(keep), "link-names", lambda: f"links {sorted(m.links.index)}, expected {sorted(keep)}")
    for i in keep:
        if i not in m.links.index:
            continue
        mon.count("links")
        for p in ports:
            want = bm.get(st.at[i, p], "")
            mon.check(m.links.at[i, p] == want, f"link:{p[:3]}{min(int(p[3:]), 2)}", lambda: f"link {i}.{p} = {m.links.at[i, p]!r}, expected {want!r}")
        c0, c1 = bm[st.at[i, "bus0"]], bm[st.at[i, "bus1"]]
        L = f * km((B[c0, "x"], B[c0, "y"]), (B[c1, "x"], B[c1, "y"])) if st.at[i, "length"] > 0 else 0.0
        mon.close(float(m.links.at[i, "length"]), L, "link:length", rtol=1e-8, atol=1e-6)
        fac = L / st.at[i, "length"] if scale and st.at[i, "length"] > 0 else 1.0
        mon.close(float(m.links.at[i, "capital_cost"]), st.at[i, "capital_cost"] * fac, "link:capital_cost", rtol=1e-8, atol=1e-9)
        for a in st.columns:
            if a in ports or a in ("length", "capital_cost"):
                continue
            g, w_ = m.links.at[i, a] if a in m.links else None, st.at[i, a]
            mon.check(g == w_ or (isinstance(w_, float) and w_ != w_ and g != g), f"link-carried:{a}", lambda: f"link {i}.{a}: {g!r}, expected {w_!r}")
        if time:
            for a, df in n.links_t.items():
                if i in df.columns:
                    mon.close(dense(m, "Link", a, i), df[i].to_numpy(float), f"link-series:{a}", rtol=1e-12)
                    mon.count("series_points", len(df))
    for c in sorted(m.all_components):
        for a, df in m.dynamic(c).items():
            stray = [x for x in df.columns if x not in m.static(c).index]
            mon.check(not stray, f"stray-series:{c}", lambda: f"{c}.{a} holds series of components which are not in the network: {stray}")
    mon.check(dict(cl.busmap) == bm, "busmap-returned", "")
    # isolation
    if coin(rng, 0.6):
        mon.count("isolation")
        before = view(n)
        for c in sorted(m.all_components):
            s = m.static(c)
            for a in s.columns:
                if s[a].dtype.kind == "f" and len(s):
                    s.loc[s.index, a] = 77.5
            for df in m.dynamic(c).values():
                if df.size:
                    df.iloc[:, :] = -5.5
        m.snapshot_weightings.iloc[:, :] = 31.0
        if len(m.investment_period_weightings):
            m.investment_period_weightings.iloc[:, :] = 13.0
        d = diff(before, view(n))
        mon.check(not d, "shared", lambda: f"changing the clustered network altered the source: {d}")


def transformers(mon):
    n = pypsa.Network()
    n.add("Bus", ["a", "b"], v_nom=[380, 110])
    n.add("Transformer", "t", bus0="a", bus1="b", s_nom=100, x=0.1)
    m = spatial.get_clustering_from_busmap(n, pd.Series({"a": "c0", "b": "c1"})).n
    mon.count("evaluations")
    g = nx.Graph()
    g.add_nodes_from(m.buses.index)
    for c in ("Line", "Link", "Transformer"):
        g.add_edges_from(zip(m.static(c).bus0, m.static(c).bus1))
    mon.check(nx.is_connected(g), "transformers-dropped", "two clusters joined by a transformer are not connected in the clustered network")


def directed():
    return [("transformers", transformers)]


def graph(n, comps):
    g = nx.Graph()
    g.add_nodes_from(n.buses.index)
    for c in comps:
        st = n.static(c)
        g.add_edges_from((st.at[i, "bus0"], st.at[i, "bus1"]) for i in st.index)
    return g


def partition(mon, busmap, buses, kind):
    mon.count("busmaps")
    ok = sorted(busmap.index) == sorted(buses)
    mon.check(ok, f"busmap-cover:{kind}", lambda: f"busmap covers {sorted(busmap.index)}, buses {sorted(buses)}")
    if not ok or busmap.isna().any() or not all(isinstance(x, str) for x in busmap):
        mon.violate(f"busmap-values:{kind}", f"{dict(busmap)}")
        raise Stop
    out = {}
    for b, c in busmap.items():
        out.setdefault(c, set()).add(b)
    return out


def connected(mon, g, parts, kind):
    for c, mem in parts.items():
        mon.check(nx.is_connected(g.subgraph(mem)), f"cluster-not-connected:{kind}", lambda: f"cluster {c} = {sorted(mem)} is not connected in the network")


def do_busmap(rng, mon):
    kind = str(pick(rng, ["kmeans", "hac", "greedy", "stubs"]))
    n = network(rng, nb=int(rng.integers(3, 12)))
    if coin(rng, 0.6):
        # make the network connected
        b = list(n.buses.index)
        n.add("Line", [f"t{j}" for j in range(len(b) - 1)], bus0=b[1:], bus1=[str(pick(rng, b[: j + 1])) for j in range(len(b) - 1)], x=1.0, r=0.1, s_nom=rng.uniform(1, 50, len(b) - 1).round(1))
    buses = list(n.buses.index)
    sub = None
    if kind != "stubs" and coin(rng, 0.25):
        sub = pd.Index([b for b in buses if coin(rng, 0.7)] or buses[:1])
    use = list(sub) if sub is not None else buses
    k = int(rng.integers(1, len(use) + 1))
    before = view(n)
    mon.count(kind)
    mon.sample = {"kind": kind, "buses": len(buses), "subset": sub is not None, "clusters": k, "lines": len(n.lines), "links": len(n.links)}
    acc = coin(rng)
    kw = {} if sub is None else {"buses_i": sub}
    if kind == "kmeans":
        w = pd.Series(rng.integers(1, 5, len(buses)), buses)
        with mon.target(kind):
            bm = n.cluster.busmap_by_kmeans(bus_weightings=w, n_clusters=k, random_state=int(rng.integers(0, 99)), **kw) if acc else spatial.busmap_by_kmeans(n, w, k, random_state=1, **kw)
        parts = partition(mon, bm, use, kind)
        mon.check(len(parts) == k, "cluster-count:kmeans", lambda: f"{len(parts)} clusters, {k} requested")
        # every bus belongs to the nearest centre of the weighted clusters (fixed point of k-means)
        ctr = {c: np.average(n.buses.loc[sorted(m), ["x", "y"]].to_numpy(float), axis=0, weights=w[sorted(m)]) for c, m in parts.items()}
        if len(parts) == k:
            for b in use:
                p = n.buses.loc[b, ["x", "y"]].to_numpy(float)
                d = {c: float(np.hypot(*(p - q))) for c, q in ctr.items()}
                mon.check(d[bm[b]] <= min(d.values()) + 1e-2 * (1 + min(d.values())), "not-nearest:kmeans", lambda: f"bus {b} at {p} is assigned to centre {bm[b]} at distance {d[bm[b]]}, nearest {d}")
    elif kind == "hac":
        comps = [c for c in ("Line", "Link") if len(n.static(c))]
        if coin(rng, 0.4) and comps:
            kw["branch_components"] = set(comps)
        g = graph(n, kw.get("branch_components", ("Line", "Link", "Transformer"))).subgraph(use)
        feat = pd.DataFrame(rng.normal(size=(len(use), 2)), index=use)
        if k == 1 and len(use) == 1:
            raise Skip("one bus")
        with mon.target(kind):
            bm = n.cluster.busmap_by_hac(k, feature=feat, **kw) if acc else spatial.busmap_by_hac(n, k, feature=feat, **kw)
        parts = partition(mon, bm, use, kind)
        mon.check(len(parts) == k, "cluster-count:hac", lambda: f"{len(parts)} clusters, {k} requested")
        if nx.is_connected(g):
            connected(mon, g, parts, kind)
    elif kind == "greedy":
        g = graph(n, ("Line",)).subgraph(use)
        cc = nx.number_connected_components(g)
        if not any(n.lines.s_nom[i] > 0 for i in n.lines.index if n.lines.bus0[i] in use and n.lines.bus1[i] in use):
            raise Skip("modularity is undefined without any weighted edge")
        with mon.target(kind):
            bm = n.cluster.busmap_by_greedy_modularity(k, **kw) if acc else spatial.busmap_by_greedy_modularity(n, k, **kw)
        parts = partition(mon, bm, use, kind)
        if cc <= k and g.number_of_edges():
            mon.check(len(parts) == k, "cluster-count:greedy", lambda: f"{len(parts)} clusters, {k} requested")
            connected(mon, g, parts, kind)
        before = None
    else:
        attrs = ["v_nom"] if coin(rng) else None
        with mon.target(kind):
            bm = spatial.busmap_by_stubs(n, attrs) if attrs else spatial.busmap_by_stubs(n)
        parts = partition(mon, bm, use, kind)
        g = graph(n, ("Line", "Link", "Transformer"))
        connected(mon, g, parts, kind)
        for c, mem in parts.items():
            mon.check(c in mem, "stub-name", lambda: f"cluster {c} = {sorted(mem)} is not named after one of its buses")
            if attrs:
                mon.check(len({n.buses.at[b, "v_nom"] for b in mem}) == 1, "stub-attrs", lambda: f"cluster {sorted(mem)} mixes voltages")
        # only tree-like parts are merged: inside a cluster there is no cycle
        simple = nx.Graph(g)
        for mem in parts.values():
            h = simple.subgraph(mem)
            mon.check(h.number_of_edges() == len(mem) - 1, "stub-merged-cycle", lambda: f"cluster {sorted(mem)} contains a loop")
        # nothing is left to reduce
        q = nx.Graph()
        q.add_nodes_from(parts)
        q.add_edges_from((bm[u], bm[v]) for u, v in simple.edges if bm[u] != bm[v])
        for c in q.nodes:
            nb = list(q.adj[c])
            if len(nb) == 1:
                # a remaining dead end must be one which attributes forbid to merge
                mon.check(attrs is not None and n.buses.at[c, "v_nom"] != n.buses.at[nb[0], "v_nom"], "stub-left", lambda: f"dead end {c} (neighbour {nb[0]}) was not reduced: {dict(bm)}")
    mon.sig(kind, len(use), k, len(parts), sub is not None)
    if before is not None:
        d = diff(before, view(n))
        mon.check(not d, f"source-changed:{kind}", lambda: f"busmap altered the network: {d}")


def case(rng, mon, i, tier):
    (do_cluster if i % 5 < 3 else do_busmap)(rng, mon)
