"""Seeded generators of small but structurally hostile PyPSA networks."""
from __future__ import annotations

import numpy as np
import pandas as pd

import pypsa

SOLVER = dict(solver_name="highs", solver_options=dict(output_flag=False, threads=1, time_limit=20.0, mip_rel_gap=0.0, mip_feasibility_tolerance=1e-9, primal_feasibility_tolerance=1e-9, dual_feasibility_tolerance=1e-9))


def opt(n, **kw):
    """n.optimize with quiet, tight solver settings."""
    k = dict(SOLVER)
    k["solver_options"] = dict(k["solver_options"])
    k.update(kw)
    # Network.optimize expands solver_options as keywords of linopy's Model.solve, which
    # hands unknown keywords to the solver
    return n.optimize(**k)


def R(rng, lo, hi, step=0.05):
    """Random value on a coarse grid."""
    return float(round(rng.integers(round(lo / step), round(hi / step) + 1) * step, 6))


def coin(rng, p=0.5):
    return bool(rng.random() < p)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


class Bulk:
    """Looks like n.add for the generator, but adds each component class in one call."""

    def __init__(self, n, rng):
        self.n = n
        self.rng = rng
        self.rows = {}

    def add(self, c, name, **kw):
        self.rows.setdefault(c, {})[name] = kw

    def flush(self, c):
        n, rows = self.n, self.rows.pop(c, None)
        if not rows:
            return
        names = list(rows)
        attrs = n.components[c]["attrs"]
        static, series = {}, {}
        for i, kw in rows.items():
            for k, v in kw.items():
                if isinstance(v, (list, np.ndarray)):
                    series.setdefault(k, {})[i] = list(v)
                else:
                    static.setdefault(k, {})[i] = v
        cols = {}
        for k, d in static.items():
            dflt = attrs.default.get(k, "" if k.startswith("bus") else np.nan)
            if k.startswith("efficiency") and k not in attrs.index:
                dflt = 1.0
            cols[k] = [d.get(i, dflt) for i in names]
        for k in series:
            if k.startswith("efficiency") and k not in attrs.index and k not in cols and coin(self.rng):
                cols[k] = [1.0] * len(names)
        n.add(c, names, **cols)
        for k, d in series.items():
            for i, v in d.items():
                n.dynamic(c)[k][i] = v


class Gen:
    """f: dict of feature probabilities / switches (see DEFAULT)."""

    DEFAULT = dict(
        T=(1, 6), nAC=(2, 5), nDC=0.3, gas=0.5, lines=True, parallel=0.3, trafo=0.4, inactive=0.25,
        ext=0.5, mod=0.0, links=0.7, multiport=0.4, dyneff=0.4, storage=0.6, store=0.6, inflow=0.5,
        committable=0.0, ramp=0.0, quad=0.0, setpoint=0.2, esum=0.15, gc=0.0, multi=False, shed=True,
        sink=True, weights=0.8, dates=0.4, loadsign=0.15, gensign=0.1, phase=0.0, type=0.0, costs2=0.5,
        nomset=0.1, isolated=0.15, hostile_names=0.3, negcost=0.1, vint=0.5, mixpar=0.1, smallw=0.2, dyncost=0.3, tiny=False, lossy=False, coupled=False, hub=0.04, retire=0.1, gcstore=0.15,
    )

    def __init__(self, rng, **feat):
        self.rng = rng
        self.f = {**self.DEFAULT, **feat}
        self.sig = []

    def has(self, k):
        v = self.f[k]
        if isinstance(v, bool):
            r = v
        else:
            r = coin(self.rng, v)
        return r

    def flag(self, k, r):
        if r:
            self.sig.append(k)
        return r

    # ------------------------------------------------------------------
    def series(self, n, lo, hi, step=0.05):
        return [R(self.rng, lo, hi, step) for _ in range(len(n.snapshots))]

    def maybe_series(self, n, lo, hi, p=0.5, step=0.05):
        if coin(self.rng, p):
            return self.series(n, lo, hi, step)
        return R(self.rng, lo, hi, step)

    def activity(self):
        """build_year/lifetime/active for one asset."""
        rng, d = self.rng, {}
        if self.f["multi"]:
            if coin(rng, self.f["vint"]):
                d["build_year"] = int(pick(rng, [0, 2015, 2020, 2025, 2030, 2035, 2040]))
                d["lifetime"] = float(pick(rng, [5, 10, 15, 20, np.inf]))
                self.sig.append("vintage")
        if coin(rng, 0.4 * self.f["inactive"] if not isinstance(self.f["inactive"], bool) else 0.4 * self.f["inactive"]):
            d["active"] = False
            self.sig.append("inactive")
        return d

    def partial_life(self, n, kw, cyc, cpp, ipp):
        """Storage which lives in some of the periods only and couples its whole life."""
        rng = self.rng
        if not self.f["multi"] or not coin(rng, self.f["retire"]):
            return
        ys = list(n.investment_periods)
        a = int(rng.integers(len(ys)))
        b = int(rng.integers(a + 1, len(ys) + 1))
        if b == len(ys) and a == 0:
            b -= 1
        kw.update(build_year=ys[a], lifetime=float((ys[b] - ys[a]) if b < len(ys) else 50))
        kw.pop("active", None)
        kw[cpp] = kw[ipp] = False
        self.sig.append(("partial-life", a, b, kw.get(cyc)))

    def extd(self, attr, scale):
        rng, d = self.rng, {}
        if coin(rng, self.f["ext"]):
            self.sig.append("ext-" + attr)
            d[attr + "_extendable"] = True
            d["capital_cost"] = R(rng, 1, 60, 0.5)
            d[attr] = R(rng, 0, scale / 2, 1)
            if coin(rng, 0.5):
                d[attr + "_min"] = R(rng, 0, scale / 4, 1)
            if coin(rng, 0.5) or self.f["lossy"]:
                d[attr + "_max"] = R(rng, scale / 2, 2 * scale, 1)
            if coin(rng, self.f["mod"]):
                d[attr + "_mod"] = R(rng, 5, 40, 1)
                self.sig.append("mod")
            elif coin(rng, self.f["nomset"]):
                d[attr + "_set"] = R(rng, scale / 4, scale / 2, 1)
                self.sig.append("nomset")
        else:
            d[attr] = R(rng, scale / 2, 1.5 * scale, 1)
        return d

    def build(self):
        rng, f = self.rng, self.f
        n = pypsa.Network()
        self.B = Bulk(n, rng)
        self.late = []
        T = int(rng.integers(f["T"][0], f["T"][1] + 1))
        if f["multi"]:
            years = sorted(rng.choice([2020, 2025, 2030, 2040], size=int(rng.integers(2, 4)), replace=False).tolist())
            T = max(1, T // 2)
            base = pd.date_range("2020-01-01", periods=T, freq="h") if self.has("dates") else pd.RangeIndex(T)
            n.set_snapshots(pd.MultiIndex.from_product([years, base], names=["period", "timestep"]))
            n.set_investment_periods(years)
            lo, hi, st = (0.1, 0.9, 0.1) if coin(rng, f["smallw"]) else (0.5, 4, 0.5)
            n.investment_period_weightings["objective"] = [R(rng, lo, hi, st) for _ in years]
            n.investment_period_weightings["years"] = [float(rng.integers(1, 11)) for _ in years]
        else:
            if self.has("dates"):
                n.set_snapshots(pd.date_range("2013-03-31", periods=T, freq="h"))
                self.sig.append("dates")
            else:
                n.set_snapshots(list(range(T)) if coin(rng, 0.8) else [f"s{i}" for i in range(T)])
        self.sig.append(("T", T))
        if self.flag("weights", self.has("weights")):
            for col in n.snapshot_weightings.columns:
                lo, hi, st = (0.05, 0.4, 0.05) if coin(rng, f["smallw"]) else (0.5, 3, 0.5)
                n.snapshot_weightings[col] = [R(rng, lo, hi, st) for _ in n.snapshots]
        for car, em in (("AC", 0), ("DC", 0), ("gas", R(rng, 0.1, 0.4)), ("coal", R(rng, 0.5, 1)), ("wind", 0), ("heat", 0), ("bat", 0), ("shed", 0)):
            n.add("Carrier", car, co2_emissions=em)
        # --- buses
        hostile = self.has("hostile_names")
        pre = pick(rng, ["b ", "B-", "bus é", "1"]) if hostile else "b"
        nA = int(rng.integers(f["nAC"][0], f["nAC"][1] + 1))
        two_level = self.has("trafo") and nA >= 2
        ac = [f"{pre}{i}" for i in range(nA)]
        vn = {}
        for k, b in enumerate(ac):
            vn[b] = 380.0 if (not two_level or k < (nA + 1) // 2) else 110.0
            n.add("Bus", b, v_nom=vn[b], carrier="AC", x=float(k), y=float(k % 2))
        dc = []
        if self.flag("DC", self.has("nDC")):
            dc = [f"{pre}dc{i}" for i in range(int(rng.integers(2, 4)))]
            for b in dc:
                n.add("Bus", b, v_nom=200.0, carrier="DC")
        gas = []
        if self.flag("gas", self.has("gas")):
            gas = [f"{pre}gas"]
            n.add("Bus", gas[0], carrier="gas")
        if self.flag("isolated", self.has("isolated")):
            ac.append(f"{pre}iso")
            n.add("Bus", ac[-1], v_nom=380.0, carrier="AC")
            vn[ac[-1]] = 380.0
        self.ac, self.dc, self.gas = ac, dc, gas
        core = [b for b in ac if not b.endswith("iso")]
        # --- passive branches
        if f["lines"]:
            self._mesh(n, core, vn, two_level)
            if dc:
                self._mesh(n, dc, {b: 200.0 for b in dc}, False, tag="dc")
        # --- links
        if dc:
            for k, b in enumerate(dc):
                self._link(n, f"conv{k}", pick(rng, core), b, eff=1.0)
        if self.has("links"):
            for k in range(int(rng.integers(1, 3))):
                a, b = rng.choice(len(ac), 2, replace=False) if len(ac) > 1 else (0, 0)
                if a != b:
                    self._link(n, f"lk{k}", ac[a], ac[b])
        if gas:
            self._link(n, "ocgt", gas[0], pick(rng, core), eff=R(rng, 0.3, 0.7))
            if coin(rng, 0.5):
                self._link(n, "elec", pick(rng, core), gas[0], eff=R(rng, 0.5, 0.9))
        L = self.B.rows.get("Link", {})
        if L and self.flag("multiport", self.has("multiport")):
            for col in ("2", "3")[: int(rng.integers(1, 3))]:
                for i in L:
                    L[i]["bus" + col] = pick(rng, list(n.buses.index)) if coin(rng, 0.6) else ""
                    L[i]["efficiency" + col] = R(rng, -0.4, 0.5)
            for i in L:
                if self.has("dyneff"):
                    k = pick(rng, [c for c in L[i] if c.startswith("efficiency")])
                    L[i][k] = self.series(n, 0.1, 0.9)
                    self.sig.append("dyneff" + k)
        # --- one ports
        allb = list(n.buses.index)
        for k, b in enumerate(allb):
            if f["shed"]:
                self.B.add("Generator", f"shed {b}", bus=b, carrier="shed", p_nom=2000.0, marginal_cost=300.0 + 7 * k)
            if f["sink"]:
                self.B.add("Generator", f"sink {b}", bus=b, carrier="shed", p_nom=2000.0, p_min_pu=-1.0, p_max_pu=0.0, marginal_cost=-(11.0 + k))
        for k in range(int(rng.integers(2, 5))):
            self._gen(n, f"g{k}", pick(rng, ac if not gas or coin(rng, 0.8) else gas))
        for k in range(int(rng.integers(1, 4))):
            self._load(n, f"d{k}", pick(rng, allb))
        if self.flag("storage", self.has("storage")):
            for k in range(int(rng.integers(1, 3))):
                self._su(n, f"su{k}", pick(rng, ac))
        if self.flag("store", self.has("store")):
            for k in range(int(rng.integers(1, 3))):
                self._store(n, f"st{k}", pick(rng, allb))
        if f["gc"] and self.flag("gcstore", self.has("gcstore")):
            self._gcstore(n, pick(rng, core))
        if self.flag("hub", self.has("hub")):
            hb = pick(rng, ac)
            for k in range(46):
                self.B.add("Load", f"hub{k}", bus=hb, p_set=R(rng, 0, 1), **({"active": False} if coin(rng, 0.1) else {}))
        for c in list(self.B.rows):
            self.B.flush(c)
        for c, k, name, v in self.late:
            n.dynamic(c)[k][name] = np.asarray(v, dtype=float)
        if f["gc"]:
            self._gc(n)
        return n

    def _mesh(self, n, buses, vn, two_level, tag=""):
        rng, f = self.rng, self.f
        pairs = []
        order = list(rng.permutation(len(buses)))
        for k in range(1, len(order)):
            pairs.append((buses[order[k]], buses[order[int(rng.integers(k))]]))
        for _ in range(int(rng.integers(0, 3))):
            if len(buses) > 2:
                a, b = rng.choice(len(buses), 2, replace=False)
                pairs.append((buses[a], buses[b]))
        if coin(rng, f["parallel"]) and pairs:
            p = pick(rng, pairs)
            pairs.append(p if coin(rng) else p[::-1])
            self.sig.append("parallel")
        mixed = set()
        if coin(rng, f["mixpar"]) and pairs:
            # lines and transformers between the same buses
            p = pick(rng, pairs)
            for _ in range(int(rng.integers(1, 4))):
                if coin(rng, 0.6):
                    mixed.add(len(pairs))
                pairs.append(p if coin(rng) else p[::-1])
            self.sig.append("mixpar")
        self.sig.append(("mesh", len(buses), len(pairs)))
        for k, (a, b) in enumerate(pairs):
            if vn[a] != vn[b] or (k in mixed):
                kw = self.extd("s_nom", 60)
                if kw.get("s_nom_extendable") or kw["s_nom"] < 5:
                    kw["s_nom"] = R(rng, 20, 60, 1)
                self.B.add("Transformer", f"T{tag}{k}", bus0=a, bus1=b, x=R(rng, 0.05, 0.3), r=R(rng, 0.01, 0.05, 0.01), model="pi",
                      s_max_pu=self.maybe_series(n, 0.6, 1, 0.3), tap_ratio=pick(rng, [1.0, 0.95, 1.1]),
                      **({"phase_shift": 5.0} if coin(rng, f["phase"]) else {}), **kw, **self.activity())
            else:
                self.B.add("Line", f"L{tag}{k}", bus0=a, bus1=b, x=R(rng, 0.05, 1), r=R(rng, 0.01, 0.3, 0.01), length=R(rng, 1, 50, 1), carrier=tag.upper() or "AC",
                      s_max_pu=self.maybe_series(n, 0.6, 1, 0.3), **self.extd("s_nom", 60), **self.activity())

    def _uc(self, n):
        rng, f = self.rng, self.f
        if f["multi"] or not coin(rng, f["committable"]):
            return {}
        self.sig.append("uc")
        d = dict(committable=True, p_min_pu=R(rng, 0.1, 0.6), min_up_time=int(rng.integers(0, 4)), min_down_time=int(rng.integers(0, 4)),
                 start_up_cost=R(rng, 0, 400, 10), shut_down_cost=R(rng, 0, 300, 10), stand_by_cost=R(rng, 0, 20, 1))
        if coin(rng, 0.4):
            d["shut_down_cost"] = d["start_up_cost"]
        if coin(rng, 0.2):
            d["stand_by_cost"] = self.series(n, 0, 20, 1)
        if coin(rng, 0.5):
            d["up_time_before"] = int(rng.integers(1, 4))
        else:
            d["up_time_before"] = 0
            d["down_time_before"] = int(rng.integers(0, 4))
        return d

    def _ramp(self, n, d):
        rng, f = self.rng, self.f
        if not coin(rng, f["ramp"]):
            return {}
        self.sig.append("ramp")
        com = d.get("committable")
        r = {}
        for k in ("ramp_limit_up", "ramp_limit_down"):
            if coin(rng, 0.7):
                lo = 0.1
                r[k] = R(rng, lo, 0.8) if com or coin(rng, 0.7) else self.series(n, 0.1, 0.8)
                if isinstance(r[k], list):
                    self.sig.append("dynramp")
        if com:
            if coin(rng, 0.5):
                r["ramp_limit_start_up"] = R(rng, max(0.3, d["p_min_pu"]), 1)
            if coin(rng, 0.5):
                r["ramp_limit_shut_down"] = R(rng, max(0.3, d["p_min_pu"]), 1)
        return r

    def _gen(self, n, name, bus):
        rng, f = self.rng, self.f
        uc = self._uc(n)
        if uc:
            cap = dict(p_nom=R(rng, 30, 120, 1))
            if coin(rng, 0.3):
                uc["p_max_pu"] = self.series(n, 0.7, 1)
        else:
            cap = self.extd("p_nom", 80)
            cap["p_max_pu"] = self.maybe_series(n, 0.2, 1, 0.6)
            if coin(rng, 0.2):
                cap["p_min_pu"] = self.maybe_series(n, 0, 0.2, 0.5)
        kw = dict(bus=bus, carrier=pick(rng, ["gas", "coal", "wind"]), marginal_cost=self.maybe_series(n, -5 if coin(rng, f["negcost"]) else 1, 60, f["dyncost"], 0.5), efficiency=self.maybe_series(n, 0.3, 1, 0.2))
        if coin(rng, f["quad"]):
            kw["marginal_cost_quadratic"] = R(rng, 0.05, 1) if coin(rng, 0.7) else self.series(n, 0.05, 1)
            self.sig.append("quad")
        if coin(rng, f["gensign"]):
            kw["sign"] = -1.0
            self.sig.append("gensign")
        if not uc and coin(rng, f["esum"]):
            hi = R(rng, 50, 300, 1)
            if coin(rng):
                kw["e_sum_max"] = hi
            else:
                kw["e_sum_min"] = R(rng, 1, 20, 1)
            self.sig.append("esum")
        kw.update(uc, **cap)
        kw.update(self._ramp(n, uc))
        kw.update(self.activity())
        self.B.add("Generator", name, **kw)
        if not uc and not cap.get("p_nom_extendable") and coin(rng, f["setpoint"] * 0.5):
            s = [np.nan if coin(rng, 0.5) else 0.2 * cap["p_nom"] for _ in n.snapshots]
            if "p_min_pu" not in cap and "sign" not in kw:
                self.late.append(("Generator", "p_set", name, s))
                self.sig.append("p_set")

    def _load(self, n, name, bus):
        rng, f = self.rng, self.f
        kw = {}
        if coin(rng, f["loadsign"]):
            kw["sign"] = pick(rng, [1.0, -0.5, -2.0])
            self.sig.append("loadsign")
        self.B.add("Load", name, bus=bus, p_set=self.maybe_series(n, 5, 70, 0.7, 1), **kw, **self.activity())

    def _link(self, n, name, b0, b1, eff=None):
        rng, f = self.rng, self.f
        uc = self._uc(n) if coin(rng, 0.5) else {}
        cap = dict(p_nom=R(rng, 30, 100, 1)) if uc else self.extd("p_nom", 60)
        kw = dict(bus0=b0, bus1=b1, efficiency=eff if eff is not None else R(rng, 0.7, 1), length=R(rng, 1, 40, 1), carrier=pick(rng, ["DC", "gas", "heat"]))
        if coin(rng, f["dyneff"]) and eff is None:
            kw["efficiency"] = self.series(n, 0.5, 1)
            self.sig.append("dyneff")
        if not uc:
            if coin(rng, 0.5):
                kw["p_min_pu"] = self.maybe_series(n, -1, 0, 0.3)
            if coin(rng, 0.3):
                kw["p_max_pu"] = self.series(n, 0.3, 1)
        if coin(rng, 0.6):
            kw["marginal_cost"] = self.maybe_series(n, 0.5, 5, 0.2, 0.5) if kw.get("p_min_pu", 0) == 0 else 0.0
        kw.update(uc, **cap)
        kw.update(self._ramp(n, uc))
        self.B.add("Link", name, **kw, **self.activity())
        if not uc and not cap.get("p_nom_extendable") and coin(rng, f["setpoint"] * 0.5) and kw.get("p_max_pu") is None:
            self.late.append(("Link", "p_set", name, [np.nan if coin(rng, 0.6) else 0.1 * cap["p_nom"] for _ in n.snapshots]))
            self.sig.append("link_p_set")

    def _su(self, n, name, bus):
        rng, f = self.rng, self.f
        kw = dict(bus=bus, carrier=pick(rng, ["bat", "gas", "wind"]), max_hours=R(rng, 1, 6, 0.5), efficiency_store=self.maybe_series(n, 0.7, 1, 0.3), efficiency_dispatch=self.maybe_series(n, 0.7, 1, 0.3),
                  standing_loss=pick(rng, [0.0, 0.05, 0.2]) if coin(rng, 0.7) else self.series(n, 0, 0.2), marginal_cost=R(rng, 0, 5, 0.5))
        if coin(rng, 0.2):
            kw["p_min_pu"] = R(rng, -1, -0.5)
        if coin(rng, 0.2):
            kw["p_max_pu"] = self.series(n, 0.6, 1)
        cap = self.extd("p_nom", 40)
        if coin(rng, f["costs2"]):
            kw["marginal_cost_storage"] = R(rng, 0, 1)
        if coin(rng, f["inflow"]):
            kw["inflow"] = self.series(n, -2 if coin(rng, 0.1) else 0, 20, 1) if coin(rng, 0.7) else R(rng, 1, 15, 1)
            kw["spill_cost"] = R(rng, 0, 3, 0.5) if coin(rng, f["costs2"]) else 0.0
            self.sig.append("inflow")
        kw.update(self._cyc("cyclic_state_of_charge", "cyclic_state_of_charge_per_period", "state_of_charge_initial_per_period"))
        if not kw["cyclic_state_of_charge"]:
            kw["state_of_charge_initial"] = R(rng, 0, 15, 1) if not cap.get("p_nom_extendable") else 0.0
        if coin(rng, f["quad"]):
            kw["marginal_cost_quadratic"] = R(rng, 0.05, 0.5)
        if coin(rng, 0.1):
            kw["sign"] = 1.0
        kw.update(cap)
        kw.update(self.activity())
        self.partial_life(n, kw, "cyclic_state_of_charge", "cyclic_state_of_charge_per_period", "state_of_charge_initial_per_period")
        self.B.add("StorageUnit", name, **kw)
        if not cap.get("p_nom_extendable") and coin(rng, 0.3 * f["setpoint"]):
            s = [np.nan] * len(n.snapshots)
            s[int(rng.integers(len(s)))] = 0.0
            self.late.append(("StorageUnit", "state_of_charge_set", name, s))
            self.sig.append("soc_set")

    def _cyc(self, cyc, cpp, ipp):
        rng = self.rng
        d = {cyc: coin(rng, 0.5)}
        if self.f["multi"]:
            if d[cyc]:
                d[cpp], d[ipp] = coin(rng, 0.5), False
            else:
                d[cpp], d[ipp] = False, coin(rng, 0.5)
        self.sig.append((cyc[0], tuple(d.values())))
        return d

    def _store(self, n, name, bus):
        rng, f = self.rng, self.f
        kw = dict(bus=bus, carrier=pick(rng, ["bat", "gas", "heat"]), standing_loss=pick(rng, [0.0, 0.05, 0.2]) if coin(rng, 0.7) else self.series(n, 0, 0.2))
        kw["marginal_cost"] = R(rng, 0, 3, 0.5) if coin(rng, 0.3) else 0.0
        if coin(rng, f["costs2"]):
            kw["marginal_cost_storage"] = R(rng, 0, 1)
        cap = self.extd("e_nom", 80)
        kw.update(self._cyc("e_cyclic", "e_cyclic_per_period", "e_initial_per_period"))
        if not kw["e_cyclic"]:
            kw["e_initial"] = R(rng, 0, 15, 1) if not cap.get("e_nom_extendable") else 0.0
        if coin(rng, 0.3):
            kw["e_max_pu"] = self.maybe_series(n, 0.6, 1, 0.5)
        if coin(rng, 0.2) and kw["e_cyclic"]:
            kw["e_min_pu"] = self.maybe_series(n, 0, 0.2, 0.5)
        elif coin(rng, 0.1):
            kw["e_min_pu"] = -1.0
        kw.update(cap)
        kw.update(self.activity())
        self.partial_life(n, kw, "e_cyclic", "e_cyclic_per_period", "e_initial_per_period")
        self.B.add("Store", name, **kw)

    def _gcstore(self, n, bus):
        """A tight energy limit on a carrier with cheap generation and non-cyclic storage."""
        rng = self.rng
        car = pick(rng, ["gas", "coal"])
        f = float(n.carriers.at[car, "co2_emissions"])
        self.B.add("Generator", "gcg", bus=bus, carrier=car, p_nom=60.0, marginal_cost=R(rng, 1, 5, 0.5), efficiency=self.maybe_series(n, 0.3, 1, 0.3))
        for k in range(int(rng.integers(1, 3))):
            if coin(rng):
                kw = dict(bus=bus, carrier=car, p_nom=R(rng, 5, 40, 1), max_hours=4.0, state_of_charge_initial=R(rng, 5, 20, 1), marginal_cost=pick(rng, [0.0, 2.0, 400.0]), **self.activity())
                self.partial_life(n, kw, "cyclic_state_of_charge", "cyclic_state_of_charge_per_period", "state_of_charge_initial_per_period") if coin(rng, 0.8) else None
                self.B.add("StorageUnit", f"gcsu{k}", **({"cyclic_state_of_charge": False, "cyclic_state_of_charge_per_period": False} | kw))
            else:
                kw = dict(bus=bus, carrier=car, e_nom=R(rng, 20, 80, 1), e_initial=R(rng, 5, 20, 1), marginal_cost=pick(rng, [0.0, 2.0]), **self.activity())
                self.partial_life(n, kw, "e_cyclic", "e_cyclic_per_period", "e_initial_per_period") if coin(rng, 0.8) else None
                self.B.add("Store", f"gcst{k}", **({"e_cyclic": False, "e_cyclic_per_period": False} | kw))
        w = float(n.snapshot_weightings.generators.sum())
        prim = coin(rng, 0.6)
        kw = {}
        if self.f["multi"]:
            w *= float(n.investment_period_weightings.years.mean())
            if coin(rng, 0.3):
                kw["investment_period"] = int(pick(rng, list(n.investment_periods)))
        n.add("GlobalConstraint", "gctight", type="primary_energy" if prim else "operational_limit", carrier_attribute="co2_emissions" if prim else car, sense="<=", constant=R(rng, 1, 15, 0.5) * w * (f if prim else 1.0), **kw)

    def _gc(self, n):
        rng, f = self.rng, self.f
        from vlib.ref import NOM

        k, gcbus, ntech = 0, None, 0
        per = list(n.investment_periods) if f["multi"] else []

        def add(**kw):
            nonlocal k
            if per and coin(rng, 0.5):
                kw["investment_period"] = int(pick(rng, per))
                self.sig.append("gc-per")
            n.add("GlobalConstraint", f"gc{k}", **kw)
            self.sig.append("gc-" + kw["type"])
            k += 1

        kinds = ["primary_energy", "operational_limit", "transmission_volume_expansion_limit", "transmission_expansion_cost_limit", "tech_capacity_expansion_limit", "nom"] + (["growth"] if per else [])
        for kind in rng.choice(kinds, size=int(rng.integers(1, 5))):
            scale = float(n.snapshot_weightings.generators.sum()) * (5 if per else 1) * pick(rng, [0.1, 0.3, 1.0])
            if kind == "primary_energy":
                add(type=kind, carrier_attribute="co2_emissions", sense="<=", constant=R(rng, 0, 30, 0.5) * scale)
            elif kind == "operational_limit":
                add(type=kind, carrier_attribute=pick(rng, ["gas", "coal", "wind", "bat"]), sense="<=", constant=R(rng, 5, 40, 1) * scale)
            elif kind == "transmission_volume_expansion_limit":
                add(type=kind, carrier_attribute=pick(rng, ["AC", "AC, DC", "[AC]", "DC,gas"]), sense="<=", constant=R(rng, 200, 3000, 10))
            elif kind == "transmission_expansion_cost_limit":
                add(type=kind, carrier_attribute=pick(rng, ["AC", "AC, DC", "DC,heat"]), sense="<=", constant=R(rng, 200, 3000, 10))
            elif kind == "tech_capacity_expansion_limit":
                kw = {}
                car = pick(rng, ["gas", "coal", "wind", "bat"])
                cand = [(c, i) for c in NOM if "carrier" in n.static(c) for i in n.static(c).index if n.static(c).at[i, NOM[c] + "_extendable"] and n.static(c).at[i, "carrier"] == car]
                add(type=kind, carrier_attribute=car, sense=pick(rng, ["<=", "<=", "=="]) if cand else "<=", constant=R(rng, 20, 120, 1), **kw)
                ntech += 1
                if cand and coin(rng, 0.5) and pd.isna(n.global_constraints.investment_period.iloc[-1]):
                    c, i = pick(rng, cand)
                    gcbus = n.static(c).at[i, "bus" if "bus" in n.static(c) else "bus0"]
                    self.sig.append("gc-bus")
            elif kind == "nom":
                car = pick(rng, ["gas", "coal", "wind"])
                suf = f"_{int(pick(rng, per))}" if per and coin(rng, 0.5) else ""
                col = f"nom_{pick(rng, ['min', 'max'])}_{car}{suf}"
                n.buses[col] = [R(rng, 5, 60, 1) if coin(rng, 0.6) else np.nan for _ in n.buses.index]
                self.sig.append(col[:7] + bool(suf) * "per")
            else:
                car = pick(rng, ["gas", "coal", "wind"])
                n.carriers.loc[car, "max_growth"] = R(rng, 10, 80, 1)
                if coin(rng):
                    n.carriers.loc[car, "max_relative_growth"] = R(rng, 0.2, 1.5, 0.1)
                self.sig.append("growth")
        if gcbus is not None and ntech == 1:
            n.global_constraints["bus"] = gcbus

    def signature(self):
        return tuple(sorted(map(str, self.sig)))
