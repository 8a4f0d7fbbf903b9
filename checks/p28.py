"""P28 consistency checks: every documented defect of a network is reported, exactly by its own check, and nothing else."""
import logging

import numpy as np
import pandas as pd

import pypsa
from vlib.anynet import diff, view
from vlib.gen import coin, pick

RULE = "a network with a random set of planted inconsistencies (or none): every named check was run strictly and leniently and compared with a plain-loop evaluation of its documented condition; distinct by the set of conditions which hold"
ASSUMPTIONS = ["conditions are evaluated after dependent values (impedances from types, carriers of branches) were filled in, as the check does itself"]
QUICK, THOROUGH = 110, 6000
NAMES = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs", "zero_impedances", "zero_s_nom", "assets", "generators", "disconnected_buses", "investment_periods", "shapes", "dtypes"]
REQUIRED = {"strict_runs": 1500, "lenient_runs": 110, "raised": 160, "quiet": 1200, "clean_networks": 6, "offenders_named": 150, "combined": 100, **{"true:" + k: 6 for k in NAMES}}
DERIVED = ("x_pu", "r_pu", "b_pu", "g_pu", "x_pu_eff", "r_pu_eff", "v_nom", "carrier", "x", "r", "b", "g", "tap_ratio", "phase_shift", "i_nom", "s_nom")


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.out.append(r.getMessage())


def lenient(n, fn):
    """Run without strictness, return the warnings."""
    lg, h, old, prop = logging.getLogger("pypsa.consistency"), Catch(), logging.root.manager.disable, None
    logging.disable(logging.NOTSET)
    lg.addHandler(h)
    level, lg.level_ = lg.level, None
    lg.setLevel(logging.INFO)
    prop, lg.propagate = lg.propagate, False
    try:
        fn()
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
        lg.propagate = prop
        logging.disable(old)
    return h.out


def healthy(rng):
    n = pypsa.Network()
    multi = coin(rng, 0.3)
    n.set_snapshots(pd.date_range("2023", periods=int(rng.integers(2, 5)), freq="h"))
    if multi:
        n.investment_periods = [2020, 2030]
    n.add("Carrier", ["AC", "DC", "wind", "gas"], color="red")
    nb = int(rng.integers(2, 6))
    n.add("Bus", [f"b{j}" for j in range(nb)], v_nom=220.0, carrier="AC", x=rng.normal(size=nb), y=rng.normal(size=nb))
    B = lambda k: [f"b{int(rng.integers(nb))}" for _ in range(k)]
    n.add("Load", [f"d{j}" for j in range(nb)], bus=[f"b{j}" for j in range(nb)])
    n.loads["p_set"] = rng.uniform(0, 9, nb)
    for c, pre in (("Generator", "g"), ("StorageUnit", "u"), ("Store", "s"), ("ShuntImpedance", "h")):
        k = int(rng.integers(1, 4)) if coin(rng, 0.85) else 0
        if k:
            kw = {} if c == "ShuntImpedance" else dict(carrier=[str(pick(rng, ["wind", "gas", ""])) for _ in range(k)])
            if c in ("Generator", "StorageUnit"):
                kw.update(p_nom=rng.uniform(1, 9, k), p_nom_extendable=[bool(coin(rng)) for _ in range(k)], p_nom_max=rng.uniform(10, 20, k), p_nom_min=rng.uniform(0, 5, k))
            n.add(c, [f"{pre}{j}" for j in range(k)], bus=B(k), **kw)
    for c, pre in (("Line", "l"), ("Link", "k"), ("Transformer", "t")):
        k = int(rng.integers(1, 4)) if coin(rng, 0.85) else 0
        if not k:
            continue
        kw = dict(bus0=B(k), bus1=B(k))
        if c != "Link":
            kw.update(x=rng.uniform(0.1, 1, k), r=rng.uniform(0.01, 1, k), s_nom=rng.uniform(1, 9, k), s_nom_extendable=[bool(coin(rng)) for _ in range(k)])
            if coin(rng, 0.3):
                ty = n.line_types.index[3] if c == "Line" else n.transformer_types.index[2]
                kw.update(type=[str(pick(rng, [ty, ""])) for _ in range(k)])
                if c == "Line":
                    kw.update(length=10.0)
        elif coin(rng):
            kw.update({"bus2": [str(pick(rng, ["", "b0"])) for _ in range(k)]})
            if coin(rng, 0.3):
                kw.update({"bus3": "", "bus10": [str(pick(rng, ["", "b1"])) for _ in range(k)]})
        n.add(c, [f"{pre}{j}" for j in range(k)], **kw)
    if len(n.generators) and coin(rng, 0.6):
        n.generators_t.p_max_pu = pd.DataFrame(rng.uniform(0.2, 1, (len(n.snapshots), 1)), index=n.snapshots, columns=pd.Index(["g0"], name="Generator"))
    if coin(rng, 0.4):
        n.add("GlobalConstraint", "co2", constant=5.0, sense="<=", **({"investment_period": 2020} if multi and coin(rng) else {}))
        if coin(rng, 0.5):
            n.add("GlobalConstraint", "tech", type="tech_capacity_expansion_limit", carrier_attribute="wind", sense="<=", constant=7.0, bus="b0")
    if coin(rng, 0.2):
        c = str(pick(rng, ["Generator", "Line", "Load"]))
        if len(n.static(c)):
            n.static(c)["busbar"] = "section A"
            n.static(c)["remark"] = np.nan
    return n


def plant(rng, n, kind):
    """Make one inconsistency; False if the network has no suitable component."""
    have = [c for c in ("Generator", "StorageUnit", "Store", "ShuntImpedance", "Load", "Line", "Link", "Transformer") if len(n.static(c))]
    one = lambda c: str(pick(rng, list(n.static(c).index)))
    c = str(pick(rng, have))
    if kind == "unknown_buses":
        cols = [a for a in n.static(c).columns if a[:3] == "bus" and (a == "bus" or a[3:].isdigit())]
        n.static(c).loc[one(c), str(pick(rng, cols))] = str(pick(rng, ["nowhere", "", "B0"]))
    elif kind == "unknown_carriers":
        c = str(pick(rng, [x for x in have + ["Bus"] if "carrier" in n.static(x)]))
        n.static(c).loc[one(c), "carrier"] = "unobtainium"
    elif kind == "time_series":
        if len(n.generators) and coin(rng, 0.3):
            c = "Generator"
        a = {"Generator": str(pick(rng, ["marginal_cost", "p_max_pu", "p_max_pu", "p_min_pu"])), "Load": "p_set", "Link": "efficiency", "Line": "s_max_pu", "StorageUnit": "inflow", "Store": "marginal_cost", "Transformer": "s_max_pu"}.get(c)
        if a is None:
            return False
        sns = n.snapshots
        df = pd.DataFrame(0.5, index=sns, columns=pd.Index([one(c)]))
        if coin(rng):
            df["stranger"] = 0.1
        else:
            df = df.iloc[:-1] if coin(rng) else df.iloc[::-1]
        n.dynamic(c)[a] = df
    elif kind == "static_power_attrs":
        c = str(pick(rng, [x for x in have if x not in ("Load", "ShuntImpedance")]))
        if c not in ("Generator", "StorageUnit", "Store", "Line", "Link", "Transformer"):
            return False
        a = {"Store": "e_nom", "Line": "s_nom", "Transformer": "s_nom"}.get(c, "p_nom")
        i = one(c)
        if coin(rng):
            n.static(c).loc[i, a + "_min"] = float(n.static(c).at[i, a + "_max"]) + 1 if np.isfinite(n.static(c).at[i, a + "_max"]) else 5.0
            if not np.isfinite(n.static(c).at[i, a + "_max"]):
                n.static(c).loc[i, a + "_max"] = 4.5
        else:
            n.static(c).loc[i, a + str(pick(rng, ["_min", "_max"]))] = np.nan
    elif kind == "time_series_power_attrs":
        c = str(pick(rng, [x for x in have if x in ("Generator", "StorageUnit", "Store", "Link")] or ["none"]))
        if c == "none":
            return False
        k = "e" if c == "Store" else "p"
        a = k + str(pick(rng, ["_max_pu", "_min_pu"]))
        bad = float(pick(rng, [np.nan, np.inf, -np.inf, -3.0 if "max" in a else 3.0]))
        i = one(c)
        if coin(rng, 0.3):
            n.static(c).loc[i, a] = bad
        else:
            df = pd.DataFrame(0.5 if "max" in a else 0.0, index=n.snapshots, columns=pd.Index([i]))
            df.iloc[int(rng.integers(len(df))), 0] = bad
            n.dynamic(c)[a] = df
    elif kind == "nans_for_component_default_attrs":
        a = {"Generator": "efficiency", "Load": "sign", "Line": "s_nom", "Link": "efficiency", "StorageUnit": "max_hours", "Store": "e_initial", "Transformer": "s_nom", "ShuntImpedance": "b"}[c]
        if a in ("efficiency",) and coin(rng):
            df = pd.DataFrame(1.0, index=n.snapshots, columns=pd.Index([one(c)]))
            df.iloc[0, 0] = np.nan
            n.dynamic(c)[a] = df
        else:
            n.static(c).loc[one(c), a] = np.nan
    elif kind == "zero_impedances":
        c = str(pick(rng, [x for x in have if x in ("Line", "Transformer")] or ["none"]))
        if c == "none":
            return False
        n.static(c).loc[one(c), str(pick(rng, ["x", "r"]))] = 0.0
    elif kind == "zero_s_nom":
        c = str(pick(rng, [x for x in have if x in ("Line", "Transformer")] or ["none"]))
        if c == "none":
            return False
        n.static(c).loc[one(c), "s_nom"] = 0.0
    elif kind == "assets":
        c = str(pick(rng, [x for x in have if x in ("Generator", "Link")] or ["none"]))
        if c == "none":
            return False
        i = one(c)
        n.static(c).loc[i, "committable"] = True
        if coin(rng, 0.8):
            n.static(c).loc[i, "p_nom_extendable"] = True
        if coin(rng, 0.2):
            n.static(c).loc[i, "active"] = False
    elif kind == "generators":
        if not len(n.generators):
            return False
        i = one("Generator")
        if coin(rng):
            n.generators.loc[i, ["up_time_before", "down_time_before"]] = [1, int(rng.integers(0, 3))]
            n.generators.loc[i, "committable"] = bool(coin(rng, 0.8))
        else:
            n.generators.loc[i, ["e_sum_min", "e_sum_max"]] = [5.0, float(pick(rng, [4.0, 5.0]))]
    elif kind == "disconnected_buses":
        n.add("Bus", "lonely", v_nom=220.0, carrier="AC")
        if coin(rng, 0.3):
            n.add("Link", "toward", bus0="b0", bus1="b0", bus2="lonely")
    elif kind == "investment_periods":
        n.add("GlobalConstraint", "limit", investment_period=float(pick(rng, [2020, 2025])), constant=1.0)
    elif kind == "shapes":
        from shapely.geometry import Point

        n.add("Shape", "z", geometry=Point(0, 0), component=str(pick(rng, ["Bus", "Generator", "Region"])), idx=str(pick(rng, ["b0", "missing"])))
    elif kind == "dtypes":
        x = {"Generator": ("p_nom", "int64"), "Line": ("length", "object"), "Load": ("p_set", "object"), "Link": ("active", "object"), "Store": ("e_nom", "float32")}.get(c)
        if x is None:
            return False
        if x[0] == "p_set" and coin(rng):
            n.loads_t.p_set = pd.DataFrame(1, index=n.snapshots, columns=pd.Index([one("Load")]))
        else:
            n.static(c)[x[0]] = n.static(c)[x[0]].astype(x[1])
    return True


def conditions(n):
    """Documented condition of every check -> offending names (or columns)."""
    bad = {k: [] for k in NAMES}
    isna = lambda v: v is None or (isinstance(v, (float, np.floating)) and np.isnan(v))
    buses, sns = set(n.buses.index), list(n.snapshots)
    attached = set()
    for c in sorted(n.all_components):
        st, at = n.static(c), n.component_attrs[c]
        if st.empty:
            continue
        for a in st.columns:
            if a != "bus" and not (a[:3] == "bus" and a[3:].isdigit()):
                continue
            for i in st.index:
                v = st.at[i, a]
                optional = c == "GlobalConstraint" or (a != "bus" and int(a[3:]) > 1)
                attached.add(v)
                if v not in buses and not (optional and (v == "" or isna(v))):
                    bad["unknown_buses"].append(i)
        if "carrier" in st:
            bad["unknown_carriers"] += [i for i in st.index if st.at[i, "carrier"] != "" and not isna(st.at[i, "carrier"]) and st.at[i, "carrier"] not in n.carriers.index]
        for a in at.index:
            if not (at.at[a, "varying"] and at.at[a, "static"]):
                continue
            df = n.dynamic(c)[a]
            bad["time_series"] += [i for i in df.columns if i not in st.index]
            if list(df.index) != sns:
                bad["time_series"].append(a)
        for nom in ("p_nom", "s_nom", "e_nom"):
            if nom + "_extendable" in st:
                bad["static_power_attrs"] += [i for i in st.index if st.at[i, nom + "_max"] < st.at[i, nom + "_min"]]
                bad["static_power_attrs"] += [nom + s for s in ("_min", "_max") for i in st.index if st.at[i, nom + "_extendable"] and isna(float(st.at[i, nom + s]))]
        for k in ("p", "e"):
            if k + "_max_pu" in at.index:
                for i in st.index:
                    lo, hi = (np.asarray(n.dynamic(c)[k + s][i], float) if i in n.dynamic(c)[k + s].columns else np.array([float(st.at[i, k + s])]) for s in ("_min_pu", "_max_pu"))
                    if not (np.isfinite(lo).all() and np.isfinite(hi).all()) or (hi < lo).any():
                        bad["time_series_power_attrs"].append(i)
        for a in at.index:
            d = at.at[a, "default"]
            if isna(d) or (isinstance(d, str) and d == ""):
                continue
            if a in st and any(isna(v) for v in st[a]):
                bad["nans_for_component_default_attrs"].append(a)
            df = n.dynamic(c).get(a)
            if df is not None and df.size and df.isna().to_numpy().any():
                bad["nans_for_component_default_attrs"].append(a)
        if c in ("Line", "Transformer"):
            bad["zero_impedances"] += [i for i in st.index if st.at[i, "x"] == 0 or st.at[i, "r"] == 0]
        if c == "Transformer":
            bad["zero_s_nom"] += [i for i in st.index if st.at[i, "s_nom"] == 0]
        if c in ("Generator", "Link"):
            bad["assets"] += [i for i in st.index if st.at[i, "committable"] and st.at[i, "p_nom_extendable"]]
        if c == "Generator":
            bad["generators"] += [i for i in st.index if (st.at[i, "committable"] and st.at[i, "up_time_before"] > 0 and st.at[i, "down_time_before"] > 0) or st.at[i, "e_sum_min"] > st.at[i, "e_sum_max"]]
        want = {"float": "float64", "int": "int64", "boolean": "bool", "string": "object"}
        for a in at.index:
            t = str(at.at[a, "type"])
            w = "float64" if "series" in t or t == "float" else want.get(t)
            if a == "name" or w is None or a == "geometry":
                continue
            if at.at[a, "static"] and str(st[a].dtype) != w:
                bad["dtypes"].append(a)
            if at.at[a, "varying"] and n.dynamic(c)[a].size and any(str(x) != w for x in n.dynamic(c)[a].dtypes):
                bad["dtypes"].append(a)
    bad["disconnected_buses"] = [b for b in n.buses.index if b not in attached]
    periods = list(n.investment_periods)
    bad["investment_periods"] = ["" for g in n.global_constraints.index if not isna(n.global_constraints.at[g, "investment_period"]) and n.global_constraints.at[g, "investment_period"] not in periods]
    bad["shapes"] = [s for s in n.shapes.index if n.shapes.at[s, "component"] in n.all_components and n.shapes.at[s, "idx"] not in n.static(n.shapes.at[s, "component"]).index]
    return bad


def case(rng, mon, i, tier):
    n = healthy(rng)
    kinds = [] if coin(rng, 0.1) else [str(k) for k in rng.choice(NAMES, int(rng.integers(1, 4)), replace=False)]
    done = [k for k in kinds if plant(rng, n, k)]
    mon.sample = {"planted": done, "components": {c: len(n.static(c)) for c in ("Bus", "Generator", "Line", "Link", "Transformer", "StorageUnit", "Store")}}
    before = view(n)
    with mon.target("lenient"):
        log = lenient(n, lambda: n.consistency_check(check_dtypes=True))
    mon.count("lenient_runs")
    d = [x for x in diff(before, view(n), cut=200) if not x[0].split("[")[0].split(".")[-1] in DERIVED and not x[0].startswith("Link.")]
    mon.check(not d, "changed", lambda: f"the check altered the network: {d[:4]}")
    bad = conditions(n)
    true = [k for k in NAMES if bad[k]]
    mon.sig(tuple(true))
    for k in true:
        mon.count("true:" + k)
    mon.count("clean_networks", int(not true))
    mon.check(bool(log) == bool(true), "lenient-report", lambda: f"conditions {true}, warnings: {log[:4]}")
    text = "\n".join(log)
    for k in true:
        for o in set(bad[k]):
            mon.count("offenders_named")
            mon.check(str(o) in text, f"not-named:{k}", lambda: f"{k}: {o!r} is not named in the warnings {text[:600]}")
    for k in NAMES:
        mon.count("strict_runs")
        err = None
        with mon.target(f"strict:{k}"):
            try:
                lenient(n, lambda: n.consistency_check(check_dtypes=True, strict=[k]))
            except pypsa.consistency.ConsistencyError as e:
                err = e
        mon.count("raised" if err else "quiet")
        mon.check((err is not None) == bool(bad[k]), f"{'missed' if bad[k] else 'alarm'}:{k}", lambda: f"strict={k}: {'raised ' + str(err)[:200] if err else 'nothing raised'}, offenders {bad[k][:4]}")
    for _ in range(2):
        sel = ["all"] if coin(rng, 0.4) else [str(k) for k in rng.choice(NAMES, int(rng.integers(0, 5)), replace=False)]
        dt = bool(coin(rng))
        want = any(bad[k] for k in (NAMES if sel == ["all"] else sel) if k != "dtypes" or dt)
        mon.count("combined")
        err = None
        with mon.target("strict:combined"):
            try:
                lenient(n, lambda: n.consistency_check(check_dtypes=dt, strict=sel))
            except pypsa.consistency.ConsistencyError as e:
                err = e
        mon.check((err is not None) == want, "combined", lambda: f"strict={sel}, check_dtypes={dt}: {'raised ' + str(err)[:200] if err else 'nothing raised'}, conditions {true}")
    try:
        n.consistency_check(strict=["unknown_buses", "no such check"])
        mon.violate("unknown-check-accepted", "strict=['no such check'] was accepted")
    except ValueError as e:
        mon.check(not isinstance(e, pypsa.consistency.ConsistencyError), "unknown-check-order", str(e))
    # plotting
    if coin(rng, 0.4):
        col = [str(pick(rng, ["red", "", "blue"])) for _ in n.carriers.index]
        n.carriers["color"] = col
        for sel, want in ((["missing_carrier_colors"], "" in col), (["unknown_carriers"], bool(bad["unknown_carriers"])), (["all"], "" in col or bool(bad["unknown_carriers"])), ([], False)):
            err = None
            with mon.target("plotting"):
                try:
                    lenient(n, lambda: pypsa.consistency.plotting_consistency_check(n, strict=sel))
                except pypsa.consistency.ConsistencyError as e:
                    err = e
            mon.check((err is not None) == want, "plotting", lambda: f"strict={sel}: {err}, colors {col}")
