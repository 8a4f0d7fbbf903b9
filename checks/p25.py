"""P25 statistics equal their definitions."""
import math
import warnings

import numpy as np
import pandas as pd

import pypsa
from vlib.anynet import build
from vlib.core import Skip
from vlib.gen import Gen, coin, opt, pick
from vlib.ref import NOM

RULE = "a network full of (random or optimised) results, one statistic with random filters, grouping, aggregation and options, compared with a sum over assets, ports and snapshots written down from its definition; distinct by statistic, arguments and features"
ASSUMPTIONS = ["energies use the snapshot weighting of the component class (generators, stores, otherwise objective), costs the objective weighting", "outputs of inactive assets are zero", "capacities use the static efficiency"]
QUICK, THOROUGH = 150, 6000
REQUIRED = {"calls": 1200, "compared": 4000, "solved": 18, "objective": 18, "nodal": 18, "summary": 15, "periods": 20, "filtered": 200, "across": 100, "timeseries": 50, "invariants": 15}
ONE = ["Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"]
BR = ["Line", "Transformer", "Link"]
OPS = {"Generator": "p", "Load": "p", "StorageUnit": "p", "Store": "p", "ShuntImpedance": "p"}


def act(n, c, i, p=None):
    s = n.static(c).loc[i]
    if not bool(s.get("active", True)):
        return False
    if p is None or "build_year" not in s.index:
        return True
    return s.build_year <= p < s.build_year + s.lifetime


def fill(rng, n):
    """Plausible finite inputs and random outputs."""
    S = n.snapshots
    nb = ["AC", "gas", "heat"]
    n.buses["carrier"] = [str(pick(rng, nb)) for _ in n.buses.index]
    n.buses["country"] = [str(pick(rng, ["DE", "FR", ""])) for _ in n.buses.index]
    n.buses["location"] = [str(pick(rng, ["here", "there"])) for _ in n.buses.index]
    n.buses["unit"] = n.buses["carrier"].map({"AC": "MWh_el", "gas": "MWh_th", "heat": "MWh_th"})
    cars = ["wind", "solar", "coal", "link type", ""]
    n.carriers = n.carriers.iloc[:0]
    n.add("Carrier", ["wind", "solar", "coal", "AC", "gas", "heat"], nice_name=["Wind power", "", "coal (nice)", "", "Gas!", ""])
    r = lambda k, lo=0.0, hi=9.0: np.round(rng.uniform(lo, hi, k), 2)
    for c in ONE + BR:
        st = n.static(c)
        k = len(st)
        if not k:
            continue
        if "carrier" in st:
            st["carrier"] = [str(pick(rng, cars)) for _ in range(k)]
        if c in NOM:
            a = NOM[c]
            st[a], st[a + "_opt"] = r(k) * (rng.random(k) > 0.3), r(k) * (rng.random(k) > 0.2)
            st["capital_cost"] = r(k)
            if coin(rng):
                st[a + "_opt"] = st[[a, a + "_opt"]].max(axis=1)
        for a in [x for x in st if x.startswith("efficiency") and not x.startswith("efficiency_")]:
            st[a] = r(k, -1, 1.5)
        for a in ("marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "start_up_cost", "shut_down_cost", "stand_by_cost"):
            if a in st:
                st[a] = r(k) * (rng.random(k) > 0.4)
        if c == "StorageUnit":
            st["max_hours"] = r(k, 1, 9)
        if "sign" in st:
            st["sign"] = [float(pick(rng, [1, 1, -1])) if c != "Load" else -1.0 for _ in range(k)]
        if "active" in st:
            st["active"] = rng.random(k) > 0.2
        if "build_year" in st:
            st["build_year"] = [int(pick(rng, [0, 2020, 2030, 2040])) for _ in range(k)]
            st["lifetime"] = [float(pick(rng, [np.inf, 10, 25])) for _ in range(k)]
        if "committable" in st:
            st["committable"] = rng.random(k) > 0.6
        outs = {"Generator": ["p", "status", "start_up", "shut_down"], "Load": ["p"], "StorageUnit": ["p", "spill", "state_of_charge", "p_dispatch", "p_store"], "Store": ["p", "e"], "ShuntImpedance": ["p"]}.get(c, ["p0", "p1"])
        if c == "Link":
            outs = outs + ["status", "start_up", "shut_down"] + [f"p{x[3:]}" for x in st if x.startswith("bus") and x[3:] not in ("0", "1")]
        for a in outs:
            x = np.round(rng.normal(size=(len(S), k)) * 5, 2) * (rng.random((len(S), k)) > 0.1)
            if a in ("status", "start_up", "shut_down"):
                x = (x > 0).astype(float)
            if a in ("spill", "state_of_charge", "p_dispatch", "p_store", "e"):
                x = np.abs(x)
            for j, i in enumerate(st.index):
                for t, s in enumerate(S):
                    if not act(n, c, i, s[0] if n.has_periods else None):
                        x[t, j] = 0.0
                if a[0] == "p" and a[1:].isdigit() and a[1:] not in "01" and st.at[i, "bus" + a[1:]] == "":
                    x[:, j] = 0.0
            n.dynamic(c)[a] = pd.DataFrame(x, index=S, columns=st.index)
        for a in ("p_max_pu", "marginal_cost"):
            if a in n.dynamic(c) and n.dynamic(c)[a].shape[1]:
                n.dynamic(c)[a] = n.dynamic(c)[a].abs()
    n.buses_t["marginal_price"] = pd.DataFrame(np.round(rng.normal(size=(len(S), len(n.buses))) * 20, 2), index=S, columns=n.buses.index)
    return n


def dense(n, c, a, i, t):
    d = n.dynamic(c)
    if a in d and i in d[a].columns:
        return float(d[a][i].iloc[t])
    return float(n.static(c).at[i, a])


def ports(n, c):
    return [x[3:] for x in n.static(c).columns if x.startswith("bus")]


def group_key(n, c, i, port, groupby, nice):
    def one(g):
        st = n.static(c)
        bus = st.at[i, "bus" + port]
        nc = lambda x: (n.carriers.nice_name.get(x, "") or x or "-") if nice else x
        if g == "carrier":
            return nc(st.at[i, "carrier"] if "carrier" in st else "")
        if g == "bus_carrier":
            return nc(n.buses.carrier[bus]) if bus in n.buses.index else None
        if g == "bus":
            return bus
        if g in ("country", "location", "unit"):
            return n.buses[g][bus] if bus in n.buses.index else None
        if g == "name":
            return i
        return st.at[i, g]
    if callable(groupby):
        return ("X" if i[-1] in "02468" else "Y",)
    if groupby is False:
        return (i,)
    return tuple(one(g) for g in ([groupby] if isinstance(groupby, str) else groupby))


def parity(n, c, port="", nice_names=False):
    return pd.Series(["X" if i[-1] in "02468" else "Y" for i in n.static(c).index], index=n.static(c).index)


def col_value(n, c, i, port, stat, kw):
    """Static value of an asset."""
    st = n.static(c)
    if c not in NOM:
        return None
    nom = float(st.at[i, NOM[c]])
    opt_ = float(st.at[i, NOM[c] + "_opt"])
    if stat in ("capex", "installed_capex"):
        return (opt_ if stat == "capex" else nom) * float(st.at[i, kw.get("cost_attribute", "capital_cost")])
    eff = 1.0 if port == "" else -1.0 if port == "0" else float(st.at[i, "efficiency" + (port if port != "1" else "")]) if "efficiency" + (port if port != "1" else "") in st else 1.0
    if not kw["at_port"]:
        eff = abs(eff)
    v = (opt_ if stat == "optimal_capacity" else nom) * eff
    if kw.get("storage") and c == "StorageUnit":
        v *= float(st.at[i, "max_hours"])
    return v


def ts_value(n, c, i, port, stat, kw, transmission):
    """Time series of an asset, or None if the statistic does not apply to it."""
    st, d, T = n.static(c), n.dynamic(c), len(n.snapshots)
    sgn = -1.0 if c in BR else float(st.at[i, "sign"]) if "sign" in st else 1.0
    if stat in ("supply", "withdrawal", "energy_balance"):
        p = sgn * d["p" + port][i].to_numpy()
        return np.clip(p, 0, None) if stat == "supply" else -np.clip(p, None, 0) if stat == "withdrawal" else p
    if stat == "transmission":
        return d["p" + port][i].to_numpy() if (c, i) in transmission else None
    if stat == "curtailment":
        if c not in ("Generator", "StorageUnit"):
            return None
        return np.clip([dense(n, c, "p_max_pu", i, t) * st.at[i, "p_nom_opt"] - d["p"][i].iloc[t] for t in range(T)], 0, None)
    if stat == "capacity_factor":
        return np.abs((d["e"] if c == "Store" else d["p0"] if c in BR else d["p"])[i].to_numpy()) if c in NOM else None
    if stat == "revenue":
        p = sgn * d["p" + port][i].to_numpy()
        p = np.clip(p, None, 0) if kw.get("direction") == "input" else np.clip(p, 0, None) if kw.get("direction") == "output" else p
        b = st.at[i, "bus" + port]
        return p * (n.buses_t.marginal_price[b].to_numpy() if b in n.buses.index else 0.0)
    if stat == "opex":
        kinds = kw.get("cost_types") or ["marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "start_up_cost", "shut_down_cost", "stand_by_cost"]
        kinds = [kinds] if isinstance(kinds, str) else kinds
        if not [k for k in kinds if k in st]:
            return None
        out = np.zeros(T)
        for k in kinds:
            if k not in st:
                continue
            com = "committable" in st and bool(st.at[i, "committable"])
            if k in ("start_up_cost", "shut_down_cost", "stand_by_cost"):
                if not com:
                    continue
                x = d[dict(start_up_cost="start_up", shut_down_cost="shut_down", stand_by_cost="status")[k]][i].to_numpy()
                w = n.snapshot_weightings.objective.to_numpy()
                # start-ups are events, which do not last for the snapshot
                x = x / w if k != "stand_by_cost" and kw["aggregate_time"] == "sum" else x
            elif k == "marginal_cost_storage":
                x = (d["state_of_charge"] if c == "StorageUnit" else d["e"])[i].to_numpy()
            elif k == "spill_cost":
                x = d["spill"][i].to_numpy()
            else:
                x = (d["p0"] if c in BR else d["p"])[i].to_numpy() if c != "StorageUnit" or k == "marginal_cost_quadratic" and False else d["p_dispatch"][i].to_numpy()
                x = x * x if k == "marginal_cost_quadratic" else x
            out = out + x * np.array([dense(n, c, k, i, t) for t in range(T)])
        return out


def weights(n, c, stat):
    w = n.snapshot_weightings
    if stat == "opex":
        return w.objective.to_numpy()
    return (w.generators if c == "Generator" else w.stores if c in ("StorageUnit", "Store") else w.objective).to_numpy()


def is_transmission(n, bus_carrier):
    out = set()
    cs = list(n.buses.carrier.unique()) if bus_carrier is None else [bus_carrier] if isinstance(bus_carrier, str) else bus_carrier
    for c in BR:
        for i in n.static(c).index:
            b = [n.buses.carrier.get(n.static(c).at[i, "bus" + p]) for p in ports(n, c)]
            if any(b.count(x) > 1 for x in cs):
                out.add((c, i))
    return out


STATIC = ("capex", "installed_capex", "optimal_capacity", "installed_capacity")
SERIES = ("opex", "supply", "withdrawal", "energy_balance", "transmission", "curtailment", "capacity_factor", "revenue")


def oracle(n, stat, kw):
    """{(component?, group..., column?): value} of a basic statistic."""
    comps = kw["comps"]
    if kw.get("storage"):
        comps = ["Store", "StorageUnit"]
    cl = [comps] if isinstance(comps, str) else comps if comps is not None else (BR if stat == "transmission" else ONE + BR)
    multi, S = n.has_periods, list(n.snapshots)
    tr = is_transmission(n, kw["bus_carrier"]) if stat == "transmission" else ()
    agg = kw["aggregate_groups"]
    per_c = {}
    for c in cl:
        st = n.static(c)
        if st.empty:
            continue
        pl = ports(n, c) if kw["at_port"] else ports(n, c)[:1]
        cells = {}
        for p in pl:
            groups = {}
            for i in st.index:
                cf, bf = kw["carrier"], kw["bus_carrier"]
                if cf is not None and ("carrier" not in st or st.at[i, "carrier"] not in ([cf] if isinstance(cf, str) else cf)):
                    continue
                if bf is not None and n.buses.carrier.get(st.at[i, "bus" + p]) not in ([bf] if isinstance(bf, str) else bf):
                    continue
                key = group_key(n, c, i, p, kw["groupby"], kw["nice_names"])
                if any(k is None for k in key):
                    continue
                if stat in STATIC:
                    v = col_value(n, c, i, p, stat, kw)
                    if v is None:
                        continue
                    vals = {(): v} if not multi and act(n, c, i) else {(q,): v for q in n.investment_periods if act(n, c, i, q)} if multi else {}
                else:
                    x = ts_value(n, c, i, p, stat, kw, tr)
                    if x is None:
                        continue
                    x, w, at = np.asarray(x, float), weights(n, c, stat), kw["aggregate_time"]
                    if at is False:
                        vals = {(s,): x[t] for t, s in enumerate(S)}
                    elif at in ("sum", "mean"):
                        vals = {}
                        for q in (n.investment_periods if multi else [None]):
                            m = np.array([q is None or s[0] == q for s in S])
                            if not m.any():
                                continue
                            z = float((x[m] * w[m]).sum())
                            vals[() if q is None else (q,)] = z / w[m].sum() if at == "mean" else z
                    else:
                        vals = {(): float(getattr(np, at)(x))}
                    if not multi and at is not False and not act(n, c, i):
                        continue
                for k, v in vals.items():
                    groups.setdefault(key + k, []).append(v)
            for k, v in groups.items():
                f = dict(sum=sum, max=max, min=min)[agg if kw["groupby"] is not False else "sum"]
                cells.setdefault(k, []).append(f(v))
        per_c[c] = {k: dict(sum=sum, max=max, min=min)[agg](v) for k, v in cells.items()}
    if isinstance(comps, str):
        return per_c.get(comps, {})
    out = {}
    for c, d in per_c.items():
        for k, v in d.items():
            if kw["aggregate_across_components"]:
                out.setdefault(k, []).append(v)
            else:
                out[(c,) + k] = [v]
    return {k: dict(sum=sum, max=max, min=min)[agg](v) for k, v in out.items()}


def flat(df):
    out = {}
    tup = lambda k: tuple(k) if isinstance(k, tuple) else (k,)
    if isinstance(df, pd.DataFrame):
        cols = list(df.columns)
        a = df.to_numpy(float)
        for r, k in enumerate(df.index):
            for j, s in enumerate(cols):
                out[tup(k) + (s,)] = a[r, j]
    else:
        for k, v in df.items():
            out[tup(k)] = float(v)
    return out


def clean(d, atol):
    return {k: v for k, v in d.items() if not math.isnan(v) and abs(v) > atol}


def same(mon, got, want, kind, kw, atol=2e-5, extra=""):
    mon.count("compared", max(len(got), 1))
    g, w = clean(got, atol), clean(want, atol)
    bad = [(k, w.get(k), g.get(k)) for k in sorted(set(g) | set(w), key=str) if k not in g and abs(w[k]) > 2 * atol or k not in w and abs(g[k]) > 2 * atol or k in g and k in w and not (g[k] == w[k] or abs(g[k] - w[k]) <= atol + 1e-7 * abs(w[k]))]
    mon.check(not bad, kind, lambda: (kind, {k: v for k, v in kw.items() if v is not None}, f"(key, expected, got) {bad[:4]}", extra))


def arguments(rng, n, stat):
    kw = dict(comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False, carrier=None, bus_carrier=None, nice_names=True)
    if stat in ("supply", "withdrawal", "energy_balance", "revenue", "market_value"):
        kw["at_port"] = True
    call = {}
    have = [c for c in ONE + BR if len(n.static(c))]
    if coin(rng, 0.35) and have:
        kw["comps"] = call["comps"] = str(pick(rng, have)) if coin(rng) else [str(x) for x in rng.choice(have, size=min(len(have), 3), replace=False)]
    if stat == "transmission" and kw["comps"] is not None:
        kw["comps"] = call["comps"] = str(pick(rng, BR)) if coin(rng) else ["Link", "Line"]
    forms = ["carrier", "bus", "bus_carrier", "country", "location", "unit", "name", ["bus", "carrier"], ["carrier", "bus_carrier"], ["country", "carrier"], False, parity]
    if coin(rng, 0.65) or stat == "energy_balance":
        kw["groupby"] = call["groupby"] = forms[int(rng.integers(0, len(forms)))]
    if coin(rng, 0.3) and stat not in ("capacity_factor",):
        kw["at_port"] = call["at_port"] = bool(coin(rng))
    if coin(rng, 0.25):
        kw["carrier"] = call["carrier"] = str(pick(rng, ["wind", "solar", "coal"])) if coin(rng) else ["wind", "link type"]
        if isinstance(kw["carrier"], str) and any(len(n.static(c)) and "carrier" in n.static(c) and kw["carrier"] not in set(n.static(c).carrier) and n.static(c).carrier.str.contains(kw["carrier"]).any() for c in ONE + BR):
            kw["carrier"] = call["carrier"] = [kw["carrier"]]
    bc = sorted(n.buses.carrier.unique())
    if coin(rng, 0.25):
        kw["bus_carrier"] = call["bus_carrier"] = str(pick(rng, bc)) if coin(rng) else [str(x) for x in bc[:2]]
    if coin(rng, 0.3):
        kw["nice_names"] = call["nice_names"] = bool(coin(rng))
    if coin(rng, 0.25):
        kw["aggregate_across_components"] = call["aggregate_across_components"] = True
        if isinstance(kw["comps"], str):
            kw["comps"] = call["comps"] = [kw["comps"]]
    if not kw["aggregate_across_components"] and coin(rng, 0.12) and stat in ("capex", "supply", "optimal_capacity", "opex", "energy_balance"):
        kw["aggregate_groups"] = call["aggregate_groups"] = str(pick(rng, ["max", "min"]))
    if stat in SERIES + ("market_value",):
        dflt = "mean" if stat in ("capacity_factor", "market_value") else "sum"
        kw["aggregate_time"] = dflt
        if coin(rng, 0.35) and stat not in ("capacity_factor", "market_value"):
            kw["aggregate_time"] = call["aggregate_time"] = [False, "mean", "max"][int(rng.integers(0, 2 if stat == "opex" else 3))]
            if kw["aggregate_time"] == "max" and n.has_periods:
                kw["aggregate_time"] = call["aggregate_time"] = "mean"
    if stat == "opex" and coin(rng, 0.3):
        kw["cost_types"] = call["cost_types"] = "marginal_cost" if coin(rng) else ["start_up_cost", "spill_cost", "marginal_cost_quadratic"]
    if stat == "opex" and kw.get("aggregate_time") == "mean":
        kw["cost_types"] = call["cost_types"] = ["marginal_cost", "marginal_cost_storage"]
    if stat == "revenue" and coin(rng, 0.4):
        kw["direction"] = call["direction"] = str(pick(rng, ["input", "output"]))
    if stat in ("optimal_capacity", "installed_capacity"):
        if coin(rng, 0.2):
            kw["storage"] = call["storage"] = True
            kw["comps"] = None
            call.pop("comps", None)
        if "at_port" not in call and kw["bus_carrier"] is not None:
            kw["at_port"] = True  # documented: all ports if a bus carrier is given
        if kw["at_port"] and kw["bus_carrier"] is None and kw["groupby"] not in ("bus_carrier", "country", "location", "unit"):
            kw["groupby"] = call["groupby"] = "bus_carrier"  # unused ports are not meaningful otherwise
    return kw, call


def tname(kw):
    return ",".join(f"{k}={v if not callable(v) else 'f'}" for k, v in sorted(kw.items()) if k in ("groupby", "aggregate_time", "at_port", "storage") and v is not None)


def statistics(rng, mon, n, calls):
    s = n.statistics
    if n.has_periods:
        mon.count("periods")
    for _ in range(calls):
        stat = str(pick(rng, list(STATIC + SERIES) + ["market_value", "expanded_capacity", "expanded_capex", "system_cost"]))
        kw, call = arguments(rng, n, stat)
        for k, v in (("filtered", kw["carrier"] is not None or kw["bus_carrier"] is not None), ("across", kw["aggregate_across_components"]), ("timeseries", kw.get("aggregate_time") is False)):
            if v:
                mon.count(k)
        mon.count("calls")
        full = dict(call)
        if coin(rng) or stat in ("market_value", "capacity_factor"):
            full["round"] = 9
        with mon.target(stat):
            got = getattr(s, stat)(**full)
        if kw["bus_carrier"] is None:
            pass
        if stat in STATIC or stat in ("opex", "supply", "withdrawal", "energy_balance", "transmission", "curtailment", "revenue"):
            want = oracle(n, stat, kw)
            same(mon, flat(got), want, stat, kw)
        elif stat == "capacity_factor":
            a = oracle(n, "capacity_factor", kw)
            b = oracle(n, "optimal_capacity", kw)
            want = {k: (v / b[k] if b.get(k, 0.0) > 1e-4 else np.nan) for k, v in a.items()}
            g = {k: v for k, v in flat(got).items() if not math.isnan(want.get(k, np.nan))}
            same(mon, g, want, stat, kw, atol=1e-4)
        elif stat == "market_value":
            a, b = oracle(n, "revenue", kw), oracle(n, "supply", kw)
            want = {k: (v / b[k] if abs(b.get(k, 0.0)) > 1e-2 else np.nan) for k, v in a.items()}
            g = {k: v for k, v in flat(got).items() if not math.isnan(want.get(k, np.nan))}
            same(mon, g, want, stat, kw, atol=1e-3)
        elif stat == "expanded_capex":
            a, b = oracle(n, "capex", kw), oracle(n, "installed_capex", kw)
            same(mon, flat(got), {k: a.get(k, 0.0) - b.get(k, 0.0) for k in set(a) | set(b)}, stat, kw)
        elif stat == "expanded_capacity":
            if kw["at_port"] or kw["bus_carrier"] is not None:
                kw = dict(kw, at_port=bool(call.get("at_port", kw["bus_carrier"] is not None)))
                if kw["at_port"] and kw["groupby"] not in ("bus_carrier",):
                    continue
            a, b = oracle(n, "optimal_capacity", kw), oracle(n, "installed_capacity", kw)
            same(mon, flat(got), {k: a.get(k, 0.0) - b.get(k, 0.0) for k in a if abs(a[k]) > abs(b.get(k, 0.0))}, stat, kw, atol=4e-5)
        elif stat == "system_cost":
            a, b = oracle(n, "capex", kw), oracle(n, "opex", dict(kw, aggregate_time="sum"))
            same(mon, flat(got), {k: a.get(k, 0.0) + b.get(k, 0.0) for k in set(a) | set(b)}, stat, kw, atol=4e-5)
        if call.get("comps") is None and not kw["aggregate_across_components"] and len(got):
            mon.check(got.index.names[0] == "component", f"index-names:{stat}", lambda: got.index.names)
        mon.sig(stat, tname(kw), kw["carrier"] is not None, kw["bus_carrier"] is not None, kw["comps"] is not None, n.has_periods)


def summary(rng, mon, n):
    mon.count("summary")
    with mon.target("statistics"):
        df = n.statistics()
        for name, f in (("Capital Expenditure", "capex"), ("Supply", "supply"), ("Revenue", "revenue"), ("Optimal Capacity", "optimal_capacity"), ("Curtailment", "curtailment"), ("Operational Expenditure", "opex")):
            kw = dict(comps=None, aggregate_groups="sum", aggregate_across_components=False, groupby="carrier", at_port=False, carrier=None, bus_carrier=None, nice_names=True, aggregate_time="sum")
            col = df[name] if name in df else pd.Series(dtype=float)
            if n.has_periods and not isinstance(col, pd.DataFrame):
                continue
            same(mon, flat(col), oracle(n, f, kw), f"summary:{f}", kw)


def invariants(rng, mon, n):
    """Relations which hold for any result."""
    mon.count("invariants")
    s = n.statistics
    with mon.target("invariants"):
        a = {g: flat(s.energy_balance(groupby=g, aggregate_across_components=True, nice_names=False, round=10, drop_zero=False)) for g in ("carrier", "bus", "name", "bus_carrier")}
        sup, wit = (flat(getattr(s, f)(groupby="bus", round=10)) for f in ("supply", "withdrawal"))
        bal = flat(s.energy_balance(groupby="bus", round=10))
    tot = [sum(v for k, v in a[g].items() if not (g == "bus" and k[0] == "")) for g in ("bus", "bus_carrier")]
    mon.close(tot[0], tot[1], "total-over-groupings", 1e-9, 1e-6)
    mon.close(sum(a["carrier"].values()), sum(a["name"].values()), "total-over-groupings", 1e-9, 1e-6)
    bad = [k for k in set(sup) | set(wit) | set(bal) if abs(np.nan_to_num(sup.get(k, 0.0)) - np.nan_to_num(wit.get(k, 0.0)) - np.nan_to_num(bal.get(k, 0.0))) > 1e-6]
    mon.check(not bad, "balance-is-supply-minus-withdrawal", bad[:3])


def solved(rng, mon):
    multi = coin(rng, 0.35)
    g = Gen(rng, T=(1, 5), sink=True, ext=0.6, multi=multi, dates=0.4, committable=0.3 if not multi and coin(rng, 0.4) else 0.0, weights=0.7)
    n = g.build()
    with mon.target("optimize"):
        try:
            status, cond = opt(n, **(dict(multi_investment_periods=True) if multi else {}))
        except ValueError as e:
            if "Empty LHS" in str(e):
                raise Skip("refused")
            raise
    if cond != "optimal":
        raise Skip(cond)
    mon.count("solved")
    s = n.statistics
    # nodal balances
    with mon.target("nodal"):
        df = s.energy_balance(groupby="bus", aggregate_time=False, aggregate_across_components=True, round=10, drop_zero=False)
    df = df.loc[[b for b in df.index if b]]
    mon.count("nodal")
    scale = 1 + float(n.loads_t.p.abs().max().max() if n.loads_t.p.size else 0)
    mon.check(float(np.nan_to_num(df.to_numpy(float)).__abs__().max(initial=0)) < 1e-4 * scale, "nodal-balance", lambda: df.abs().max(axis=1).nlargest(3).to_dict())
    # costs
    with mon.target("costs"):
        capex, opex = s.capex(round=10, drop_zero=False), s.opex(round=10, drop_zero=False)
    if multi:
        w = n.investment_period_weightings.objective
        total = float((capex.sum().reindex(w.index).fillna(0) * w).sum() + (opex.sum().reindex(w.index).fillna(0) * w).sum())
    else:
        total = float(capex.sum() + opex.sum())
    mon.count("objective")
    return n, total


def case(rng, mon, i, tier):
    if i % 4 == 3:
        n, total = solved(rng, mon)
        # inactive or non-extendable assets with capital cost are part of both the constant and the expenditure
        want = n.objective + n.objective_constant
        mon.close(total, want, "capex-plus-opex-is-objective", 1e-5, 1e-2, lambda: (total, n.objective, n.objective_constant))
        return
    n = build(rng, plain=True, outputs=False)
    fill(rng, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        statistics(rng, mon, n, 14)
        if i % 4 == 0:
            summary(rng, mon, n)
            invariants(rng, mon, n)
    mon.sample = dict(components={c: len(n.static(c)) for c in ONE + BR}, snapshots=len(n.snapshots), periods=len(n.investment_periods))
