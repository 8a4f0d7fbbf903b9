"""Independent reference model of PyPSA's linear optimal power flow.

Built directly from the input tables (never from pypsa.optimization), as explicit rows
over named variables.  Two uses:
  * residuals(): evaluate every row at the solution PyPSA reported (by category),
  * solve():     optimise it with scipy/HiGHS and compare optimal values.
KVL is stated with bus angles (not cycles) in solve(), and as "a potential exists" in
residuals().
"""
from __future__ import annotations

import re

import numpy as np
import pandas as pd
import scipy.optimize as so
import scipy.sparse as sp

INF = np.inf
NOM = dict(Generator="p_nom", Line="s_nom", Transformer="s_nom", Link="p_nom", Store="e_nom", StorageUnit="p_nom")


def val(n, c, attr, name, t, default=None):
    """Static-or-series lookup, written out independently of get_switchable_as_dense."""
    dyn = n.dynamic(c)
    if attr in dyn and name in dyn[attr].columns:
        return float(dyn[attr].at[t, name])
    st = n.static(c)
    if attr in st.columns:
        return float(st.at[name, attr])
    if default is None:
        raise KeyError((c, attr))
    return default


def link_ports(n):
    return sorted((col[3:] for col in n.links.columns if re.fullmatch(r"bus\d+", col) and col not in ("bus0",)), key=int)


def is_active(n, c, name, period=None):
    st = n.static(c)
    if "active" in st.columns and not bool(st.at[name, "active"]):
        return False
    if period is None:
        return True
    by = st.at[name, "build_year"] if "build_year" in st.columns else 0
    lt = st.at[name, "lifetime"] if "lifetime" in st.columns else np.inf
    return by <= period < by + lt


def branch_impedance(n, c, name):
    """Effective per-unit reactance/resistance used for the linear flow."""
    st = n.static(c)
    if c == "Line":
        v = n.buses.at[st.at[name, "bus0"], "v_nom"]
        return float(st.at[name, "x"]) / v**2, float(st.at[name, "r"]) / v**2
    tap = float(st.at[name, "tap_ratio"])
    s = float(st.at[name, "s_nom"])
    return float(st.at[name, "x"]) / s * tap, float(st.at[name, "r"]) / s * tap


def passive_components(n, period=None):
    """Connected components over active passive branches: list of (buses, branches)."""
    adj = {b: [] for b in n.buses.index}
    brs = []
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for name in st.index:
            if is_active(n, c, name, period):
                b0, b1 = st.at[name, "bus0"], st.at[name, "bus1"]
                brs.append((c, name, b0, b1))
                adj[b0].append(b1)
                adj[b1].append(b0)
    seen, comps = {}, []
    for b in n.buses.index:
        if b in seen:
            continue
        k = len(comps)
        stack, members = [b], []
        seen[b] = k
        while stack:
            u = stack.pop()
            members.append(u)
            for v in adj[u]:
                if v not in seen:
                    seen[v] = k
                    stack.append(v)
        comps.append((members, []))
    for br in brs:
        comps[seen[br[2]]][1].append(br)
    return comps


def capture_prior(n):
    """Dispatch/commitment recorded before a (partial) optimisation."""
    out = {}
    for c, p in (("Generator", "p"), ("Link", "p0")):
        for attr in (p, "status"):
            df = n.dynamic(c).get(attr)
            out[c, attr] = None if df is None else df.copy()
    return out


def runs_before(status):
    """(on, off) trailing run lengths of a 0/1 history."""
    on = off = 0
    for s in reversed(list(status)):
        if round(s) == 1 and off == 0:
            on += 1
        elif round(s) == 0 and on == 0:
            off += 1
        else:
            break
    return on, off


class Ref:
    def __init__(self, n, sns=None, multi=False, losses=0, linearized=False, skip=(), kvl=True, prior=None, inits=None):
        self.n = n
        self.sns = list(n.snapshots if sns is None else sns)
        self.multi = multi
        self.losses = losses
        self.linearized = linearized
        self.skip = set(skip)
        self.v = {}
        self.lb, self.ub, self.integ, self.obj, self.quad = [], [], [], [], {}
        self.rows = []
        self.idx = {}
        self.inits = inits or {}
        self.const = 0.0
        self.kvl = kvl
        self.prior = prior
        self.periods = list(dict.fromkeys(t[0] for t in self.sns)) if multi else [None]
        self.build()

    # -------------------------------------------------------------- primitives
    def var(self, key, lb=-INF, ub=INF, integ=0):
        self.v[key] = len(self.lb)
        self.lb.append(lb)
        self.ub.append(ub)
        self.integ.append(integ)
        self.obj.append(0.0)

    def row(self, tag, terms, lo=-INF, hi=INF, key=None):
        d = {}
        for k, c in terms:
            if k in self.v and c != 0:
                d[self.v[k]] = d.get(self.v[k], 0.0) + c
        if not d and not (lo > 1e-9 or hi < -1e-9):
            return
        if key is not None:
            self.idx[key] = len(self.rows)
        self.rows.append((tag, d, lo, hi))

    def cost(self, key, c):
        if key in self.v:
            self.obj[self.v[key]] += c

    def per(self, t):
        return t[0] if self.multi else None

    def act(self, c, name, t):
        return is_active(self.n, c, name, self.per(t))

    def w(self, col, t):
        return float(self.n.snapshot_weightings.at[t, col])

    def wobj(self, t):
        w = self.w("objective", t)
        if self.multi:
            w *= float(self.n.investment_period_weightings.at[t[0], "objective"])
        return w

    def years(self, t):
        return float(self.n.investment_period_weightings.at[t[0], "years"]) if self.multi else 1.0

    # -------------------------------------------------------------- model
    def build(self):
        n, sns = self.n, self.sns
        self.ext = {c: [i for i in n.static(c).index if n.static(c).at[i, a + "_extendable"]] for c, a in NOM.items()}
        self.com = {c: [i for i in n.static(c).index if n.static(c).at[i, "committable"]] for c in ("Generator", "Link")}
        # capacity variables
        for c, a in NOM.items():
            st = n.static(c)
            for i in self.ext[c]:
                self.var((c, a, i))
                self.row("nominal", [((c, a, i), 1)], float(st.at[i, a + "_min"]), float(st.at[i, a + "_max"]))
                if st.at[i, a + "_mod"] > 0:
                    self.var((c, "n_mod", i), 0, INF, 1)
                    self.row("modular", [((c, a, i), 1), ((c, "n_mod", i), -float(st.at[i, a + "_mod"]))], 0, 0)
                if a + "_set" in st.columns and np.isfinite(st.at[i, a + "_set"]):
                    self.row("nominal-set", [((c, a, i), 1)], float(st.at[i, a + "_set"]), float(st.at[i, a + "_set"]))
                if self.multi:
                    f = sum(float(n.investment_period_weightings.at[p, "objective"]) for p in self.periods if is_active(n, c, i, p))
                else:
                    f = 1.0 if is_active(n, c, i) else 0.0
                k = f * float(st.at[i, "capital_cost"])
                self.cost((c, a, i), k)
                self.const += k * float(st.at[i, a])
        # operation
        for c, attr in (("Generator", "p"), ("Line", "s"), ("Transformer", "s"), ("Link", "p"), ("Store", "e"),
                        ("StorageUnit", "p_dispatch"), ("StorageUnit", "p_store"), ("StorageUnit", "state_of_charge")):
            self.operation(c, attr)
        self.unit_commitment()
        if "ramp" not in self.skip:
            self.ramps()
        self.storage()
        self.balance()
        if self.kvl:
            self.angles()
        self.supply_sums()
        self.global_constraints()
        self.objective()

    def bounds(self, c, attr, i, t):
        n = self.n
        if c in ("Line", "Transformer"):
            hi = val(n, c, "s_max_pu", i, t)
            return -hi, hi
        if c == "StorageUnit":
            if attr == "p_dispatch":
                return 0.0, val(n, c, "p_max_pu", i, t)
            if attr == "p_store":
                return 0.0, -val(n, c, "p_min_pu", i, t)
            return 0.0, float(n.static(c).at[i, "max_hours"])
        k = "e" if c == "Store" else "p"
        return val(n, c, k + "_min_pu", i, t), val(n, c, k + "_max_pu", i, t)

    def operation(self, c, attr):
        n = self.n
        st = n.static(c)
        a = NOM[c]
        lossy = self.losses and c in ("Line", "Transformer")
        for i in st.index:
            for t in self.sns:
                if not self.act(c, i, t):
                    continue
                key = (c, attr, i, t)
                self.var(key)
                if c == "Store":
                    self.var((c, "p", i, t))
                if lossy:
                    self.var((c, "loss", i, t), 0)
                lo, hi = self.bounds(c, attr, i, t)
                L = [((c, "loss", i, t), 1)] if lossy else []
                mL = [((c, "loss", i, t), -1)] if lossy else []
                tag = f"bounds-{c}-{attr}"
                if i in self.ext[c]:
                    self.row(tag, [(key, 1), ((c, a, i), -lo), *mL], 0, INF, key=("lower", c, attr, i, t))
                    self.row(tag, [(key, 1), ((c, a, i), -hi), *L], -INF, 0, key=("upper", c, attr, i, t))
                elif i in self.com.get(c, ()):
                    pass
                else:
                    nom = float(st.at[i, a])
                    self.row(tag, [(key, 1), *mL], lo * nom, INF, key=("lower", c, attr, i, t))
                    self.row(tag, [(key, 1), *L], -INF, hi * nom, key=("upper", c, attr, i, t))
                s = n.dynamic(c).get(attr + "_set")
                if s is not None and i in s.columns and np.isfinite(s.at[t, i]):
                    self.row(f"setpoint-{c}-{attr}", [(key, 1)], float(s.at[t, i]), float(s.at[t, i]))
                if lossy:
                    r = branch_impedance(n, c, i)[1]
                    smax = val(n, c, "s_max_pu", i, t) * float(st.at[i, "s_nom_max"] if i in self.ext[c] else st.at[i, "s_nom"])
                    self.row("loss", [((c, "loss", i, t), 1)], -INF, r * smax**2)
                    for k in range(1, self.losses + 1):
                        p = k / self.losses * smax
                        for sg in (-1, 1):
                            self.row("loss", [((c, "loss", i, t), 1), (key, sg * 2 * r * p)], -r * p * p, INF)

    def past(self, c, attr, i, first):
        """Values of the snapshots before this optimisation, None if never optimised."""
        df = self.prior[c, attr] if self.prior is not None else self.n.dynamic(c)[attr]
        if df is None or i not in df.columns or df.empty:
            return None
        return [float(v) for v in df[i].iloc[:first]]

    def uc_init(self, c, i):
        """(initial status, up_time_before, down_time_before)."""
        n = self.n
        st = n.static(c)
        first = n.snapshots.get_loc(self.sns[0])
        if first == 0:
            u, d = int(st.at[i, "up_time_before"]), int(st.at[i, "down_time_before"])
            return (1 if u > 0 else 0), u, d
        h = self.past(c, "status", i, first)
        if h is None:
            return 0, 0, 0
        u, d = runs_before(h)
        return (1 if u > 0 else 0), u, d

    def unit_commitment(self):
        n = self.n
        for c in ("Generator", "Link"):
            st = n.static(c)
            for i in self.com[c]:
                if not is_active(n, c, i):
                    continue
                nom = float(st.at[i, "p_nom"])
                init, up, down = self.uc_init(c, i)
                mu, md = int(st.at[i, "min_up_time"]), int(st.at[i, "min_down_time"])
                for t in self.sns:
                    for k in ("status", "start_up", "shut_down"):
                        self.var((c, k, i, t), 0, 1, 0 if self.linearized else 1)
                for j, t in enumerate(self.sns):
                    lo, hi = self.bounds(c, "p", i, t)
                    S = (c, "status", i, t)
                    self.row("uc-bounds", [((c, "p", i, t), 1), (S, -lo * nom)], 0, INF)
                    self.row("uc-bounds", [((c, "p", i, t), 1), (S, -hi * nom)], -INF, 0)
                    prev = [((c, "status", i, self.sns[j - 1]), -1)] if j else []
                    k = 0 if j else init
                    # start_up >= status - prev ; shut_down >= prev - status
                    self.row("uc-transition", [((c, "start_up", i, t), 1), (S, -1), *[(q, 1) for q, _ in prev]], -k, INF)
                    self.row("uc-transition", [((c, "shut_down", i, t), 1), (S, 1), *prev], k, INF)
                    if j and mu:
                        self.row("uc-min-up", [(S, -1)] + [((c, "start_up", i, q), 1) for q in self.sns[max(0, j - mu + 1): j + 1]], -INF, 0)
                    if j and md:
                        self.row("uc-min-down", [(S, 1)] + [((c, "shut_down", i, q), 1) for q in self.sns[max(0, j - md + 1): j + 1]], -INF, 1)
                    if up > 0 and j < mu - up:
                        self.row("uc-initial", [(S, 1)], 1, 1)
                    if down > 0 and j < md - down:
                        self.row("uc-initial", [(S, 1)], 0, 0)

    def ramps(self):
        n = self.n
        first = n.snapshots.get_loc(self.sns[0])
        for c in ("Generator", "Link"):
            st = n.static(c)
            out = "p" if c == "Generator" else "p0"
            for i in st.index:
                if not is_active(n, c, i):
                    continue
                nom = float(st.at[i, "p_nom"])
                for j, t in enumerate(self.sns):
                    ru, rd = val(n, c, "ramp_limit_up", i, t), val(n, c, "ramp_limit_down", i, t)
                    if i in self.com[c]:
                        ru, rd = float(st.at[i, "ramp_limit_up"]), float(st.at[i, "ramp_limit_down"])
                    if np.isnan(ru) and np.isnan(rd):
                        continue
                    P = (c, "p", i, t)
                    p0, s0, prev, sprev = 0.0, 0.0, [], []
                    if j:
                        prev, sprev = [(c, "p", i, self.sns[j - 1])], [(c, "status", i, self.sns[j - 1])]
                    elif first == 0:
                        continue
                    else:
                        h = self.past(c, out, i, first)
                        if h is None:
                            continue
                        p0 = h[-1]
                        if i in self.com[c]:
                            s0 = round(self.past(c, "status", i, first)[-1])
                    d = [(P, 1), *[(q, -1) for q in prev]]
                    if i in self.com[c]:
                        su, sd = float(st.at[i, "ramp_limit_start_up"]) * nom, float(st.at[i, "ramp_limit_shut_down"]) * nom
                        S = (c, "status", i, t)
                        if not np.isnan(ru):
                            # p - p_prev <= ru*nom*s_prev + su*(s - s_prev)
                            self.row("ramp-uc", d + [(S, -su)] + [(q, su - ru * nom) for q in sprev], -INF, p0 + (ru * nom - su) * s0)
                        if not np.isnan(rd):
                            # p_prev - p <= rd*nom*s + sd*(s_prev - s)
                            self.row("ramp-uc", d + [(S, rd * nom - sd)] + [(q, sd) for q in sprev], p0 - sd * s0, INF)
                    elif i in self.ext[c]:
                        if not np.isnan(ru):
                            self.row("ramp", d + [((c, "p_nom", i), -ru)], -INF, p0)
                        if not np.isnan(rd):
                            self.row("ramp", d + [((c, "p_nom", i), rd)], p0, INF)
                    else:
                        if not np.isnan(ru):
                            self.row("ramp", d, -INF, p0 + ru * nom)
                        if not np.isnan(rd):
                            self.row("ramp", d, p0 - rd * nom, INF)

    def storage_prev(self, c, i, cyclic, cyc_pp, init_pp, init):
        """Yield (t, previous key or None, initial value) for active snapshots."""
        lev = "state_of_charge" if c == "StorageUnit" else "e"
        ts = [t for t in self.sns if self.act(c, i, t)]
        groups = [ts]
        if self.multi and ((cyclic and cyc_pp) or (not cyclic and init_pp)):
            groups = [[t for t in ts if t[0] == p] for p in self.periods]
        for g in groups:
            for j, t in enumerate(g):
                if j:
                    yield t, (c, lev, i, g[j - 1]), 0.0
                elif cyclic:
                    yield t, (c, lev, i, g[-1]), 0.0
                else:
                    yield t, None, self.inits.get((c, i), init)

    def storage(self):
        n = self.n
        c, st = "StorageUnit", n.storage_units
        anyinflow = False
        for i in st.index:
            for t in self.sns:
                if val(n, c, "inflow", i, t) > 0:
                    anyinflow = True
        for i in st.index:
            for t, prev, init in self.storage_prev(c, i, st.at[i, "cyclic_state_of_charge"], st.at[i, "cyclic_state_of_charge_per_period"],
                                                   st.at[i, "state_of_charge_initial_per_period"], float(st.at[i, "state_of_charge_initial"])):
                eh = self.w("stores", t)
                inflow = val(n, c, "inflow", i, t)
                if inflow > 0 and anyinflow:
                    self.var((c, "spill", i, t), 0, inflow)
                terms = [((c, "state_of_charge", i, t), -1),
                         ((c, "p_dispatch", i, t), -eh / val(n, c, "efficiency_dispatch", i, t)),
                         ((c, "p_store", i, t), eh * val(n, c, "efficiency_store", i, t)),
                         ((c, "spill", i, t), -eh)]
                if prev is not None:
                    terms.append((prev, (1 - val(n, c, "standing_loss", i, t)) ** eh))
                self.row("storage-unit", terms, -inflow * eh - init, -inflow * eh - init, key=("level", c, i, t))
        c, st = "Store", n.stores
        for i in st.index:
            for t, prev, init in self.storage_prev(c, i, st.at[i, "e_cyclic"], st.at[i, "e_cyclic_per_period"],
                                                   st.at[i, "e_initial_per_period"], float(st.at[i, "e_initial"])):
                eh = self.w("stores", t)
                terms = [((c, "e", i, t), -1), ((c, "p", i, t), -eh)]
                if prev is not None:
                    terms.append((prev, (1 - val(n, c, "standing_loss", i, t)) ** eh))
                self.row("store", terms, -init, -init, key=("level", c, i, t))

    def balance(self):
        n = self.n
        inj = {(b, t): [] for b in n.buses.index for t in self.sns}
        for c, attr, sg in (("Generator", "p", 1), ("Store", "p", 1), ("StorageUnit", "p_dispatch", 1), ("StorageUnit", "p_store", -1)):
            st = n.static(c)
            for i in st.index:
                for t in self.sns:
                    inj[st.at[i, "bus"], t].append(((c, attr, i, t), sg * float(st.at[i, "sign"])))
        for c in ("Line", "Transformer"):
            st = n.static(c)
            for i in st.index:
                for t in self.sns:
                    b0, b1 = st.at[i, "bus0"], st.at[i, "bus1"]
                    inj[b0, t].append(((c, "s", i, t), -1))
                    inj[b1, t].append(((c, "s", i, t), 1))
                    if self.losses:
                        inj[b0, t].append(((c, "loss", i, t), -0.5))
                        inj[b1, t].append(((c, "loss", i, t), -0.5))
        ports = link_ports(n)
        for i in n.links.index:
            for t in self.sns:
                inj[n.links.at[i, "bus0"], t].append((("Link", "p", i, t), -1))
                for k in ports:
                    b = n.links.at[i, "bus" + k]
                    if b == "":
                        continue
                    eff = val(n, "Link", "efficiency" + ("" if k == "1" else k), i, t)
                    inj[b, t].append((("Link", "p", i, t), eff))
        dem = {k: 0.0 for k in inj}
        for i in n.loads.index:
            if not n.loads.at[i, "active"]:
                continue
            for t in self.sns:
                dem[n.loads.at[i, "bus"], t] -= val(n, "Load", "p_set", i, t) * float(n.loads.at[i, "sign"])
        for k, terms in inj.items():
            self.row("balance", terms, dem[k], dem[k], key=("balance", *k))

    def angles(self):
        n = self.n
        for per in self.periods:
            for buses, brs in passive_components(n, per):
                if not brs:
                    continue
                ac = n.buses.at[buses[0], "carrier"] == "AC"
                for t in self.sns:
                    if self.per(t) != per:
                        continue
                    for j, b in enumerate(buses):
                        self.var(("angle", b, t), 0 if j == 0 else -INF, 0 if j == 0 else INF)
                    for c, i, b0, b1 in brs:
                        x, r = branch_impedance(n, c, i)
                        z = x if ac else r
                        sc = 1 / max(z, 1e-9) if z else 1
                        # z*s = th0 - th1, angles scaled so that coefficients stay near 1
                        k = 1e3
                        self.row("kvl", [((c, "s", i, t), z * k), (("angle", b0, t), -1), (("angle", b1, t), 1)], 0, 0)
                        del sc

    def supply_sums(self):
        n = self.n
        for i in n.generators.index:
            lo, hi = float(n.generators.at[i, "e_sum_min"]), float(n.generators.at[i, "e_sum_max"])
            if np.isfinite(lo) or np.isfinite(hi):
                if any(self.act("Generator", i, t) for t in self.sns):
                    self.row("e_sum", [(("Generator", "p", i, t), self.w("generators", t)) for t in self.sns], lo, hi)

    # -------------------------------------------------------------- global constraints
    def sense(self, s, const):
        return dict([("<=", (-INF, const)), (">=", (const, INF)), ("==", (const, const)), ("=", (const, const))])[s]

    def carrier_list(self, s):
        return [re.sub(r"[\[\]\(\)]", "", x.strip()) for x in s.split(",")]

    def global_constraints(self):
        n = self.n
        for name, g in n.global_constraints.iterrows():
            per = g.investment_period
            anyper = pd.isna(per)
            ts = [t for t in self.sns if anyper or (self.multi and t[0] == per)]
            tag = f"gc-{g.type}"
            const = float(g.constant)
            terms, nonempty = [], False
            if g.type in ("primary_energy", "operational_limit"):
                if not ts:
                    continue
                prim = g.type == "primary_energy"
                em = n.carriers[g.carrier_attribute] if prim else None

                def factor(car):
                    if not prim:
                        return 1.0 if car == g.carrier_attribute else 0.0
                    return float(em.get(car, 0.0))

                for i in n.generators.index:
                    f = factor(n.generators.at[i, "carrier"])
                    if f == 0:
                        continue
                    nonempty = True
                    for t in ts:
                        e = val(n, "Generator", "efficiency", i, t) if prim else 1.0
                        terms.append((("Generator", "p", i, t), f / e * self.w("generators", t) * self.years(t)))
                for c, lev, cyc, ini in (("StorageUnit", "state_of_charge", "cyclic_state_of_charge", "state_of_charge_initial"), ("Store", "e", "e_cyclic", "e_initial")):
                    st = n.static(c)
                    for i in st.index:
                        f = factor(st.at[i, "carrier"])
                        if f == 0 or st.at[i, cyc]:
                            continue
                        nonempty = True
                        at = [t for t in ts if self.act(c, i, t)]
                        if at:
                            terms.append(((c, lev, i, at[-1]), -f))
                            const -= f * float(st.at[i, ini])
                if nonempty:
                    self.row(tag, terms, *self.sense(g.sense, const), key=("gc", name))
            elif g.type in ("transmission_volume_expansion_limit", "transmission_expansion_cost_limit"):
                car = self.carrier_list(g.carrier_attribute)
                for c in ("Line", "Link"):
                    st = n.static(c)
                    for i in self.ext[c]:
                        if st.at[i, "carrier"] not in car:
                            continue
                        if not anyper and not is_active(n, c, i, per):
                            continue
                        if anyper and self.multi and not any(is_active(n, c, i, p) for p in self.periods):
                            continue
                        nonempty = True
                        if g.type.startswith("transmission_volume"):
                            k = float(st.at[i, "length"])
                        else:
                            k = float(st.at[i, "capital_cost"])
                            if anyper and self.multi:
                                k *= sum(float(n.investment_period_weightings.at[p, "objective"]) for p in self.periods if is_active(n, c, i, p))
                        terms.append(((c, NOM[c], i), k))
                if nonempty:
                    self.row(tag, terms, *self.sense(g.sense, const), key=("gc", name))
            elif g.type == "tech_capacity_expansion_limit":
                bus = g.get("bus")
                for c, a in NOM.items():
                    st = n.static(c)
                    if "carrier" not in st:
                        continue
                    for i in self.ext[c]:
                        if st.at[i, "carrier"] != g.carrier_attribute:
                            continue
                        b = st.at[i, "bus0" if "bus0" in st.columns else "bus"]
                        if isinstance(bus, str) and bus != "" and b != bus:
                            continue
                        if not anyper and not is_active(n, c, i, per):
                            continue
                        nonempty = True
                        terms.append(((c, a, i), 1))
                if nonempty:
                    self.row(tag, terms, *self.sense(g.sense, const), key=("gc", name))
        # per-bus-carrier nominal bounds
        for col in n.buses.columns:
            m = re.fullmatch(r"nom_(min|max)_(.*)", str(col))
            if not m:
                continue
            car, per = m.group(2), None
            if car not in n.carriers.index:
                car, per = car.rsplit("_", 1)
                per = int(per)
            for b in n.buses.index:
                lim = n.buses.at[b, col]
                if pd.isna(lim):
                    continue
                terms = []
                for c in ("Generator", "Store", "StorageUnit"):
                    st = n.static(c)
                    for i in self.ext[c]:
                        if st.at[i, "carrier"] == car and st.at[i, "bus"] == b and (per is None or is_active(n, c, i, per)):
                            terms.append(((c, NOM[c], i), 1))
                if terms:
                    self.row("gc-nom_bus_carrier", terms, *((float(lim), INF) if m.group(1) == "min" else (-INF, float(lim))))
        # growth limits
        if self.multi and len(n.carriers):
            for car in n.carriers.index:
                mg = float(n.carriers.at[car, "max_growth"])
                if not np.isfinite(mg):
                    continue
                rel = max(0.0, float(n.carriers.at[car, "max_relative_growth"]))
                first = {p: [] for p in self.periods}
                for c, a in NOM.items():
                    st = n.static(c)
                    if "carrier" not in st:
                        continue
                    for i in self.ext[c]:
                        if st.at[i, "carrier"] == car:
                            ps = [p for p in self.periods if is_active(n, c, i, p)]
                            if ps:
                                first[ps[0]].append((c, a, i))
                for j, p in enumerate(self.periods):
                    terms = [(k, 1) for k in first[p]]
                    if j and rel > 0:
                        terms += [(k, -rel) for k in first[self.periods[j - 1]]]
                    if terms:
                        self.row("gc-growth", terms, -INF, mg)

    def objective(self):
        n = self.n
        marg = (("Generator", "p"), ("Link", "p"), ("Store", "p"), ("StorageUnit", "p_dispatch"))
        for c, attr in marg:
            st = n.static(c)
            for i in st.index:
                for t in self.sns:
                    if not self.act(c, i, t):
                        continue
                    w = self.wobj(t)
                    self.cost((c, attr, i, t), w * val(n, c, "marginal_cost", i, t))
                    q = val(n, c, "marginal_cost_quadratic", i, t, 0.0)
                    if q:
                        self.quad[self.v[c, attr, i, t]] = self.quad.get(self.v[c, attr, i, t], 0) + w * q
        for c, attr in (("Store", "e"), ("StorageUnit", "state_of_charge")):
            for i in n.static(c).index:
                for t in self.sns:
                    self.cost((c, attr, i, t), self.wobj(t) * val(n, c, "marginal_cost_storage", i, t, 0.0))
        for i in n.storage_units.index:
            for t in self.sns:
                self.cost(("StorageUnit", "spill", i, t), self.wobj(t) * val(n, "StorageUnit", "spill_cost", i, t, 0.0))
        for c in ("Generator", "Link"):
            for i in self.com[c]:
                for t in self.sns:
                    self.cost((c, "status", i, t), self.wobj(t) * val(n, c, "stand_by_cost", i, t, 0.0))
                    self.cost((c, "start_up", i, t), float(n.static(c).at[i, "start_up_cost"]))
                    self.cost((c, "shut_down", i, t), float(n.static(c).at[i, "shut_down_cost"]))

    # -------------------------------------------------------------- evaluation
    def point(self):
        """The solution PyPSA reported, as a vector (angles left NaN)."""
        n = self.n
        x = np.full(len(self.lb), np.nan)
        out = {("Line", "s"): "p0", ("Transformer", "s"): "p0", ("Link", "p"): "p0"}
        for key, j in self.v.items():
            if key[0] == "angle":
                continue
            c, attr, i = key[:3]
            if len(key) == 3:
                if attr == "n_mod":
                    a = NOM[c]
                    x[j] = round(float(n.static(c).at[i, a + "_opt"]) / float(n.static(c).at[i, a + "_mod"]))
                else:
                    x[j] = float(n.static(c).at[i, attr + "_opt"])
                continue
            t = key[3]
            if attr == "loss":
                x[j] = float(n.dynamic(c).p0.at[t, i] + n.dynamic(c).p1.at[t, i])
            elif self.losses and attr == "s":
                x[j] = float(n.dynamic(c).p0.at[t, i] - n.dynamic(c).p1.at[t, i]) / 2
            else:
                df = n.dynamic(c)[out.get((c, attr), attr)]
                x[j] = float(df.at[t, i]) if i in df.columns else 0.0
        return x

    def fill_angles(self, x):
        """Least-squares potentials per component and snapshot; returns x with angles."""
        x = x.copy()
        n = self.n
        for per in self.periods:
            for buses, brs in passive_components(n, per):
                if not brs:
                    continue
                ac = n.buses.at[buses[0], "carrier"] == "AC"
                pos = {b: k for k, b in enumerate(buses)}
                A = np.zeros((len(brs), len(buses)))
                z = np.zeros(len(brs))
                for k, (c, i, b0, b1) in enumerate(brs):
                    A[k, pos[b0]] += 1
                    A[k, pos[b1]] -= 1
                    xx, rr = branch_impedance(n, c, i)
                    z[k] = (xx if ac else rr) * 1e3
                for t in self.sns:
                    if self.per(t) != per:
                        continue
                    f = np.array([x[self.v[c, "s", i, t]] for c, i, _, _ in brs])
                    th = np.zeros(len(buses))
                    if len(buses) > 1:
                        th[1:] = np.linalg.lstsq(A[:, 1:], z * f, rcond=None)[0]
                    for b in buses:
                        x[self.v["angle", b, t]] = th[pos[b]]
        return x

    def residuals(self, x):
        """List of (tag, violation, scale) for every row, plus variable bounds."""
        out = []
        for tag, d, lo, hi in self.rows:
            s = sum(c * x[j] for j, c in d.items())
            scale = max([1.0] + [abs(c * x[j]) for j, c in d.items()])
            viol = max(lo - s, s - hi, 0.0) if s == s else np.inf
            out.append((tag, viol, scale))
        for key, j in self.v.items():
            viol = max(self.lb[j] - x[j], x[j] - self.ub[j], 0.0) if x[j] == x[j] else np.inf
            out.append((f"var-{key[0]}-{key[1]}" if key[0] != "angle" else "var-angle", viol, max(1.0, abs(x[j]) if x[j] == x[j] else 1)))
        return out

    def cost_of(self, x):
        o = np.asarray(self.obj)
        used = o != 0
        c = float(o[used] @ x[used])
        for j, q in self.quad.items():
            c += q * x[j] ** 2
        return c  # total cost; PyPSA reports this minus self.const

    def solve(self, obj=None, shift=None):
        """Return (status, optimal total cost, x); shift: {row index: delta of both sides}."""
        lo, hi = [], []
        if getattr(self, "_A", None) is None or self._A.shape[0] != len(self.rows):
            ri, ci, da = [], [], []
            for k, (_, d, a, b) in enumerate(self.rows):
                ri += [k] * len(d)
                ci += list(d)
                da += list(d.values())
            self._A = sp.csr_matrix((da, (ri, ci)), shape=(len(self.rows), len(self.lb)))
        for k, (_, d, a, b) in enumerate(self.rows):
            dlt = shift.get(k, 0.0) if shift else 0.0
            lo.append(a + dlt)
            hi.append(b + dlt)
        cons = so.LinearConstraint(self._A, lo, hi) if self.rows else ()
        r = so.milp(
            np.asarray(self.obj if obj is None else obj, dtype=float),
            constraints=cons, bounds=so.Bounds(self.lb, self.ub), integrality=self.integ,
            options=dict(time_limit=60, mip_rel_gap=1e-9),
        )
        return r.status, (None if r.x is None else float(r.fun)), r.x
