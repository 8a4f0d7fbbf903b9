"""Arbitrary (not necessarily solvable) networks full of data, and a neutral view of their content."""
from __future__ import annotations

import json

import numpy as np
import pandas as pd

import pypsa
from vlib.gen import coin, pick

OUT = {"Generator": ["p", "q", "status"], "Load": ["p"], "Line": ["p0", "p1"], "Link": ["p0", "p1"], "StorageUnit": ["state_of_charge", "p"], "Store": ["e", "p"], "Bus": ["marginal_price", "v_ang"], "Transformer": ["p0"]}
VARY = {"Generator": ["p_max_pu", "p_min_pu", "p_set", "marginal_cost", "efficiency", "ramp_limit_up"], "Load": ["p_set", "q_set"], "Line": ["s_max_pu"], "Link": ["p_max_pu", "efficiency", "marginal_cost"],
        "StorageUnit": ["inflow", "p_max_pu", "state_of_charge_set"], "Store": ["e_max_pu", "marginal_cost"], "Bus": ["v_mag_pu_set"], "Transformer": ["s_max_pu"]}
FLOATS = {"Bus": ["v_nom", "x", "y"], "Generator": ["p_nom", "p_nom_max", "marginal_cost", "capital_cost", "lifetime", "ramp_limit_up", "e_sum_max", "efficiency"], "Load": ["p_set", "sign"], "Line": ["x", "r", "s_nom", "length", "v_ang_max"],
          "Link": ["p_nom", "efficiency", "p_min_pu", "length"], "StorageUnit": ["p_nom", "max_hours", "state_of_charge_initial", "inflow"], "Store": ["e_nom", "e_initial"], "Transformer": ["x", "s_nom", "tap_ratio", "phase_shift"],
          "ShuntImpedance": ["b", "g"], "Carrier": ["co2_emissions", "max_growth"], "GlobalConstraint": ["constant"], "LineType": ["r_per_length", "x_per_length"], "TransformerType": ["vsc", "pfe"]}
BOOLS = {"Generator": ["p_nom_extendable", "committable", "active"], "Line": ["s_nom_extendable"], "Link": ["active", "p_nom_extendable"], "StorageUnit": ["cyclic_state_of_charge"], "Store": ["e_cyclic", "active"]}
INTS = {"Generator": ["build_year", "min_up_time"], "Line": ["build_year"], "Transformer": ["tap_position"], "Store": ["build_year"]}
STRINGS = {"Generator": ["control", "type"], "Bus": ["unit", "country"], "Carrier": ["nice_name", "color"], "GlobalConstraint": ["sense", "carrier_attribute"], "Load": ["type"]}


class Names:
    def __init__(self, rng, plain):
        self.rng, self.k, self.plain = rng, 0, plain

    def __call__(self, c):
        self.k += 1
        s = f"{c[0]}{self.k}"
        if self.plain:
            return s
        return str(pick(self.rng, [s, s, s + " wind", f"{self.k + 100}", "ü" + s, s + "/x", s + ", y", s.lower() + "-0"]))


def build(rng, mode="any", outputs=True, plain=False, T=None, time_kind=None):
    """A random network; mode: 'any' = everything, 'file' = what file formats are meant to carry."""
    n = pypsa.Network(name=str(pick(rng, ["", "net", "Grid 1"])), ignore_standard_types=bool(coin(rng, 0.3)))
    nm = Names(rng, plain)
    T = T or int(rng.integers(1, 7))
    kind = time_kind or str(pick(rng, ["time", "time", "int", "text", "default", "multi", "multi-time"]))
    if kind == "time":
        n.set_snapshots(pd.date_range("2021-03-01 05:00", periods=T, freq=str(pick(rng, ["h", "3h", "15min", "D"]))))
    elif kind == "int":
        n.set_snapshots(range(int(rng.integers(0, 3)), T + 3))
    elif kind == "text":
        n.set_snapshots([f"t{j}" for j in range(T)])
    elif kind == "multi":
        n.set_snapshots(range(T))
        n.investment_periods = [2020, 2030, 2050][: int(rng.integers(1, 4))]
    elif kind == "multi-time":
        n.set_snapshots(pd.date_range("2021", periods=T, freq="h"))
        n.investment_periods = [2025, 2035]
    S = n.snapshots
    if coin(rng, 0.7):
        n.snapshot_weightings.loc[:, :] = rng.uniform(0.2, 9, size=(len(S), 3)).round(3)
    if len(n.investment_period_weightings) and coin(rng, 0.8):
        n.investment_period_weightings.loc[:, :] = rng.uniform(0.2, 9, size=(len(n.investment_periods), 2)).round(3)
    sizes = {c: int(rng.integers(0, 4)) for c in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link", "GlobalConstraint", "Carrier", "LineType", "TransformerType")}
    cars = [nm("Carrier") for _ in range(sizes["Carrier"])] + ["AC"]

    def add(c, names, **kw):
        for a in FLOATS.get(c, []):
            if coin(rng, 0.5):
                kw[a] = [float(pick(rng, [0.0, 1.0, float(rng.normal()), float(rng.normal() * 1e5), np.inf, 0.1 + 0.2])) for _ in names]
        for a in BOOLS.get(c, []):
            if coin(rng, 0.5):
                kw[a] = [bool(coin(rng)) for _ in names]
        for a in INTS.get(c, []):
            if coin(rng, 0.5):
                kw[a] = [int(rng.integers(0, 2050)) for _ in names]
        for a in STRINGS.get(c, []):
            if coin(rng, 0.4):
                kw[a] = [str(pick(rng, ["x", "y z", "DE", "ä"])) for _ in names]
        if coin(rng, 0.25):
            kw["my_number"] = [float(rng.normal()) for _ in names]
        if coin(rng, 0.2):
            kw["my_text"] = [str(pick(rng, ["foo", "bar baz", "q"])) for _ in names]
        n.add(c, names, **kw)
        for a in VARY.get(c, []):
            sel = [i for i in names if coin(rng, 0.5)]
            if sel and coin(rng, 0.5):
                df = pd.DataFrame(rng.normal(size=(len(S), len(sel))).round(5), index=S, columns=pd.Index(sel, name=c))
                n.dynamic(c)[a] = df
        for a in OUT.get(c, []) if outputs else []:
            if coin(rng, 0.4):
                n.dynamic(c)[a] = pd.DataFrame(rng.normal(size=(len(S), len(names))).round(5), index=S, columns=n.static(c).index)
        if coin(rng, 0.1) and c in VARY:
            n.dynamic(c)["my_series"] = pd.DataFrame(rng.normal(size=(len(S), 1)).round(5), index=S, columns=pd.Index(names[:1], name=c))

    add("Carrier", cars)
    buses = [nm("Bus") for _ in range(int(rng.integers(1, 6)))]
    add("Bus", buses, carrier=[str(pick(rng, cars)) for _ in buses])
    if coin(rng, 0.3):
        n.buses["geo_tag"] = "z"
    B = lambda k: [str(pick(rng, buses)) for _ in range(k)]
    for c in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"):
        if k := sizes[c]:
            kw = {} if c == "ShuntImpedance" else dict(carrier=[str(pick(rng, cars + [""])) for _ in range(k)])
            add(c, [nm(c) for _ in range(k)], bus=B(k), **kw)
    for c in ("LineType", "TransformerType"):
        if (k := sizes[c]) and coin(rng, 0.5):
            add(c, [nm(c) for _ in range(k)])
    for c in ("Line", "Transformer", "Link"):
        if k := sizes[c]:
            kw = {}
            if c == "Link" and coin(rng, 0.5):
                kw["bus2"] = [str(pick(rng, buses + [""])) for _ in range(k)]
                kw["efficiency2"] = [float(rng.normal()) for _ in range(k)]
                if coin(rng, 0.4):
                    kw["bus3"] = [str(pick(rng, buses + [""])) for _ in range(k)]
            ty = {"Line": "LineType", "Transformer": "TransformerType"}.get(c)
            if ty and len(n.static(ty)) and coin(rng, 0.5):
                kw["type"] = [str(pick(rng, list(n.static(ty).index[:5]) + [""])) for _ in range(k)]
            add(c, [nm(c) for _ in range(k)], bus0=B(k), bus1=B(k), **kw)
            if c == "Link" and "bus2" in kw and coin(rng):
                names = list(n.links.index)
                n.links_t["efficiency2"] = pd.DataFrame(rng.normal(size=(len(S), 1)).round(4), index=S, columns=pd.Index(names[-1:], name="Link"))
    if k := sizes["GlobalConstraint"]:
        add("GlobalConstraint", [nm("GlobalConstraint") for _ in range(k)])
    if coin(rng, 0.5):
        n.meta = dict(a=1, b=dict(c="text", d=[1, 2.5]), e=None, f=True) if coin(rng) else dict(scenario="base")
    if coin(rng, 0.2):
        n.crs = 3035
    if coin(rng, 0.25):
        from shapely.geometry import Point, Polygon

        k = int(rng.integers(1, 3))
        geo = [Point(*rng.normal(size=2).round(3)) if coin(rng) else Polygon([(0, 0), (1, 0.5), (float(rng.integers(1, 9)), 3)]) for _ in range(k)]
        n.add("Shape", [nm("Shape") for _ in range(k)], geometry=geo, component="Bus", idx=B(k))
    if coin(rng, 0.3):
        n._objective = 1.5
    return n


def view(n, obj=False):
    """Content of a network as plain copied data."""
    v = dict(snapshots=list(n.snapshots), names=list(n.snapshots.names), w=n.snapshot_weightings.to_numpy(float).copy(), wcols=list(n.snapshot_weightings), wi=list(n.snapshot_weightings.index),
             periods=list(n.investment_periods), pw=n.investment_period_weightings.copy(), name=n.name, meta=json.dumps(dict(n.meta), sort_keys=True, default=str), crs=str(n.crs), static={}, dyn={})
    for c in sorted(n.all_components):
        st = n.static(c)
        v["static"][c] = {i: {a: st[a].iloc[k] for a in st.columns if obj or a != "obj"} for k, i in enumerate(st.index)}
        v["dyn"][c] = {a: {i: df[i].to_numpy(copy=True) for i in df} for a, df in n.dynamic(c).items() if df.shape[1]}
        for a, df in n.dynamic(c).items():
            if list(df.index) != v["snapshots"]:
                v["dyn"][c].setdefault("!index", {})[a] = np.array([len(df)])
    return v


def eqv(a, b, tol=0.0):
    if a is b:
        return True
    na = a is None or (isinstance(a, (float, np.floating)) and np.isnan(a))
    nb = b is None or (isinstance(b, (float, np.floating)) and np.isnan(b))
    if na or nb:
        return na and nb
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or (tol and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))
    try:
        return type(a).__name__ == type(b).__name__ and bool(a == b)
    except Exception:
        return False


def diff(a, b, tol=0.0, skip=(), cut=6):
    """Differences of two views."""
    out = []
    for k in ("snapshots", "names", "wi", "wcols", "periods", "name", "meta", "crs"):
        if k not in skip and a[k] != b[k]:
            out.append((k, a[k], b[k]))
    for k in ("w", "pw"):
        if k in skip:
            continue
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=0, equal_nan=True):
            out.append((k, x.tolist(), y.tolist()))
    for c in a["static"]:
        if c in skip:
            continue
        x, y = a["static"][c], b["static"][c]
        if list(x) != list(y):
            out.append((f"{c} names", list(x), list(y)))
            continue
        for i in x:
            for t in sorted(set(x[i]) | set(y[i])):
                if t in skip or f"{c}.{t}" in skip:
                    continue
                if t not in x[i] or t not in y[i]:
                    out.append((f"{c}.{t}", "present" if t in x[i] else "absent", "present" if t in y[i] else "absent"))
                elif not eqv(x[i][t], y[i][t], tol):
                    out.append((f"{c}.{t}[{i}]", x[i][t], y[i][t]))
        dx, dy = a["dyn"][c], b["dyn"][c]
        for t in sorted(set(dx) | set(dy)):
            if t in skip or f"{c}_t.{t}" in skip:
                continue
            u, w = dx.get(t, {}), dy.get(t, {})
            if set(u) != set(w):
                out.append((f"{c}_t.{t} columns", sorted(u), sorted(w)))
                continue
            for i in u:
                if u[i].shape != w[i].shape or not np.allclose(u[i].astype(float), w[i].astype(float), rtol=tol, atol=0, equal_nan=True):
                    out.append((f"{c}_t.{t}[{i}]", u[i].tolist()[:4], w[i].tolist()[:4]))
    return out[:cut]
