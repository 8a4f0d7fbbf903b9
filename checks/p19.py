"""P19 snapshots, investment periods and weightings under histories of changes."""
import numpy as np
import pandas as pd

import pypsa
from vlib.gen import coin, pick

RULE = "a random history of snapshot, investment-period and weighting changes (and refused ones) after each of which all series and weights were compared with a model keyed by snapshot; distinct by the history"
ASSUMPTIONS = [
    "weightings after replacing single snapshots by a multi-index are not specified",
    "replacing a multi-index by single snapshots is outside the documented use",
]
QUICK, THOROUGH = 320, 12000
REQUIRED = {"changes": 1200, "series": 15000, "set_snapshots": 600, "set_periods": 100, "weights": 400, "refused": 250, "grown": 200, "kept": 250, "timedelta": 40, "to_multi": 60}
DEFAULTS = {  # documented defaults of the series used here
    ("Generator", "p_max_pu"): 1.0, ("Generator", "p_min_pu"): 0.0, ("Generator", "p_set"): 0.0, ("Generator", "marginal_cost"): 0.0,
    ("Generator", "status"): 1.0, ("Generator", "p"): 0.0, ("Generator", "efficiency"): 1.0, ("Generator", "ramp_limit_up"): np.nan,
    ("Load", "p_set"): 0.0, ("Load", "q_set"): 0.0, ("StorageUnit", "inflow"): 0.0, ("StorageUnit", "p_min_pu"): -1.0,
    ("StorageUnit", "state_of_charge_set"): np.nan, ("Store", "e_max_pu"): 1.0, ("Store", "e_min_pu"): 0.0, ("Link", "efficiency"): 1.0, ("Link", "efficiency2"): 1.0,
    ("Link", "p2"): 0.0, ("Link", "p_max_pu"): 1.0, ("Line", "s_max_pu"): 1.0, ("Line", "p0"): 0.0, ("Bus", "v_mag_pu_set"): 1.0, ("Bus", "marginal_price"): 0.0,
    ("Bus", "v_mag_pu"): 1.0, ("Generator", "my_series"): np.nan, ("Transformer", "s_max_pu"): 1.0,
}
LISTS = dict(Generator="generators", Load="loads", StorageUnit="storage_units", Store="stores", Link="links", Line="lines", Bus="buses", Transformer="transformers")


class Model:
    def __init__(self, sns):
        self.sns = list(sns)
        self.vals = {}
        self.w = {s: [1.0, 1.0, 1.0] for s in self.sns}
        self.pw = {}

    multi = property(lambda s: isinstance(s.sns[0], tuple))


def build(rng, sns):
    n = pypsa.Network(ignore_standard_types=True)
    n.set_snapshots(sns)
    n.add("Bus", ["a", "b", "c"])
    n.add("Generator", ["g1", "g2", "g3"], bus="a")
    n.add("Load", ["l1", "l2"], bus="b")
    n.add("StorageUnit", ["s1"], bus="b")
    n.add("Store", ["e1", "e2"], bus="c")
    n.add("Link", ["k1", "k2"], bus0="a", bus1="b", bus2=["c", ""])
    n.add("Line", ["x1"], bus0="a", bus1="b")
    n.add("Transformer", ["t1"], bus0="a", bus1="b")
    return n


def fill(rng, n, m):
    for (c, a), d in DEFAULTS.items():
        if not coin(rng, 0.6):
            continue
        names = [i for i in n.static(c).index if coin(rng, 0.7)]
        if a in ("p", "p2", "p0", "status", "marginal_price"):
            names = list(n.static(c).index)
        if not names:
            continue
        df = pd.DataFrame(rng.normal(size=(len(n.snapshots), len(names))).round(4), index=n.snapshots, columns=names)
        for k in [k for k in m.vals if k[:2] == (c, a)]:
            del m.vals[k]
        n.dynamic(c)[a] = df.rename_axis(columns=c)
        for i in names:
            m.vals[c, a, i] = dict(zip(m.sns, df[i]))


def compare(mon, n, m, why):
    sns = list(n.snapshots)
    if not mon.check(sns == m.sns, f"snapshots:{why}", lambda: f"{sns[:5]} != {m.sns[:5]}"):
        return False
    mon.check(n.snapshots.name == "snapshot", f"snapshots-name:{why}", n.snapshots.name)
    ts = list(dict.fromkeys(s[1] for s in m.sns)) if m.multi else m.sns
    ps = list(dict.fromkeys(s[0] for s in m.sns)) if m.multi else []
    mon.check(list(n.timesteps) == ts, f"timesteps:{why}", lambda: f"{list(n.timesteps)[:5]} {ts[:5]}")
    mon.check(list(n.periods) == ps and list(n.investment_periods) == ps, f"periods:{why}", lambda: f"{list(n.periods)} {ps}")
    mon.check(n.has_periods == bool(ps) == n.has_investment_periods, f"has-periods:{why}")
    if m.multi:
        mon.check(list(n.snapshots.names) == ["period", "timestep"], f"levels:{why}", n.snapshots.names)
    w = n.snapshot_weightings
    mon.check(w.index.equals(n.snapshots) and list(w) == ["objective", "stores", "generators"], f"weights-index:{why}", lambda: f"{w.index[:3]} {list(w)}")
    mon.close(w.to_numpy(), np.array([m.w[s] for s in m.sns]), f"weights:{why}", 0, 1e-12)
    if m.pw:
        pw = n.investment_period_weightings
        mon.check(list(pw.index) == list(m.pw) and list(pw) == ["objective", "years"], f"period-weights-index:{why}", lambda: str(pw))
        mon.close(pw.to_numpy(), np.array(list(m.pw.values())), f"period-weights:{why}", 0, 0)
    for c in LISTS:
        for a, df in n.dynamic(c).items():
            mon.count("series")
            want = sorted(i for (cc, aa, i) in m.vals if (cc, aa) == (c, a))
            mon.check(df.index.equals(n.snapshots), f"series-index:{why}", lambda: f"{c} {a} {df.index[:3]}")
            if not mon.check(sorted(df) == want, f"series-columns:{why}", lambda: f"{c} {a} {list(df)} {want}"):
                continue
            if want and len(df) == len(m.sns):
                mon.close(df[want].to_numpy(), np.array([[m.vals[c, a, i][s] for i in want] for s in m.sns]), f"series:{why}", 0, 0, lambda: f"{c} {a}")
    return not mon.viol


def labels(rng, kind, lo, k):
    if kind == "int":
        return [int(lo + j) for j in range(k)]
    if kind == "str":
        return [f"h{lo + j:03d}" for j in range(k)]
    return [pd.Timestamp("2021-01-01") + pd.Timedelta(hours=int(lo + j)) for j in range(k)]


def wrap(rng, kind, ls):
    if kind == "time":
        return pd.DatetimeIndex(ls) if coin(rng, 0.8) else pd.Index(ls)
    return [ls, pd.Index(ls), np.array(ls), pd.Index(ls, name="other")][int(rng.integers(0, 4))]


def newlabels(rng, kind, cur):
    r = rng.random()
    if r < 0.25 and len(cur) > 1:  # keep part
        k = int(rng.integers(1, len(cur)))
        st = int(rng.integers(0, len(cur) - k + 1))
        return cur[st:st + k], "part"
    if r < 0.4 and len(cur) > 1:
        return [cur[j] for j in rng.permutation(len(cur))], "permuted"
    if r < 0.5:
        return cur[::2], "thinned"
    lo = int(rng.integers(0, 8))
    return labels(rng, kind, lo, int(rng.integers(1, 9))), "shifted"


def case(rng, mon, i, tier):
    kind = str(pick(rng, ["int", "str", "time", "time"]))
    cur = labels(rng, kind, 0, int(rng.integers(1, 8)))
    n = build(rng, wrap(rng, kind, cur))
    m = Model(cur)
    fill(rng, n, m)
    for key in list(n.dynamic("Generator")):
        pass
    # outputs present right after creation have no columns
    if not compare(mon, n, m, "initial"):
        return
    sig = []
    for step in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["snapshots", "periods", "weights", "refuse", "fill"], p=[0.45, 0.15, 0.17, 0.15, 0.08]))
        tag = op
        if op == "snapshots":
            mon.count("set_snapshots")
            dw = float(pick(rng, [1.0, 1.0, 3.0, 0.5]))
            if m.multi:
                ps = list(dict.fromkeys(s[0] for s in m.sns))
                if coin(rng, 0.3) and len(ps) > 1:
                    ps = ps[: len(ps) - 1]
                elif coin(rng, 0.3):
                    ps = ps + [ps[-1] + 5]
                if coin(rng, 0.3):  # ragged periods
                    new = [(p, t) for p in ps for t in newlabels(rng, kind, list(dict.fromkeys(s[1] for s in m.sns)))[0]]
                    how = "ragged"
                else:
                    ls, how = newlabels(rng, kind, list(dict.fromkeys(s[1] for s in m.sns)))
                    new = [(p, t) for p in ps for t in ls]
                idx = pd.MultiIndex.from_tuples(new, names=pick(rng, [0, 1]) and ["period", "timestep"] or None)
                src = {s: s for s in new}
            elif coin(rng, 0.2):
                ls, how = newlabels(rng, kind, m.sns)
                ps = [2020, 2030, 2045][: int(rng.integers(1, 4))]
                new = [(p, t) for p in ps for t in ls]
                idx = pd.MultiIndex.from_tuples(new)
                src = {s: s[1] for s in new}
                how = "multi-" + how
                mon.count("to_multi")
            else:
                new, how = newlabels(rng, kind, m.sns)
                idx = wrap(rng, kind, new)
                src = {s: s for s in new}
            tag = "sns:" + how
            td = isinstance(idx, pd.DatetimeIndex) and len(new) > 1 and coin(rng, 0.35)
            with mon.target("set_snapshots"):
                if td:
                    n.set_snapshots(idx, weightings_from_timedelta=True, default_snapshot_weightings=dw)
                elif dw == 1.0 and coin(rng):
                    n.snapshots = idx
                else:
                    n.set_snapshots(idx, default_snapshot_weightings=dw) if coin(rng) else n.set_snapshots(idx, dw, not isinstance(idx, pd.DatetimeIndex))
            old = set(m.sns)
            mon.count("grown" if any(src[s] not in old for s in new) else "shrunk")
            mon.count("kept", int(any(src[s] in old for s in new)))
            for (c, a, j), d in m.vals.items():
                m.vals[c, a, j] = {s: d.get(src[s], DEFAULTS[c, a]) for s in new}
            if td:
                mon.count("timedelta")
                h = [(b - a).total_seconds() / 3600 for a, b in zip(new, new[1:])]
                m.w = dict(zip(new, [[x] * 3 for x in h + h[-1:]]))
            elif how.startswith("multi"):
                m.w = dict(zip(new, n.snapshot_weightings.to_numpy().tolist()))
            else:
                m.w = {s: m.w.get(s, [dw] * 3) for s in new}
            m.sns = new
            if m.multi and m.pw:  # weights of periods are set by investment_periods
                ps = list(dict.fromkeys(s[0] for s in new))
                with mon.target("investment_periods"):
                    n.investment_periods = ps
                m.pw = {p: m.pw.get(p, [1.0, 1.0]) for p in ps}
        elif op == "periods":
            mon.count("set_periods")
            if m.multi:
                ps = list(dict.fromkeys(s[0] for s in m.sns))
            else:
                ps = sorted(int(x) for x in rng.choice(range(2020, 2060, 5), size=int(rng.integers(1, 4)), replace=False))
            arg = [ps, pd.Index(ps), np.array(ps)][int(rng.integers(0, 3))]
            with mon.target("set_investment_periods"):
                if coin(rng):
                    n.set_investment_periods(arg)
                else:
                    n.investment_periods = arg
            if not m.multi:
                new = [(p, s) for p in ps for s in m.sns]
                for k, d in m.vals.items():
                    m.vals[k] = {s: d[s[1]] for s in new}
                m.w = {s: list(m.w[s[1]]) for s in new}
                m.sns = new
                tag = "periods:expand"
            m.pw = {p: m.pw.get(p, [1.0, 1.0]) for p in ps}
        elif op == "weights":
            mon.count("weights")
            if m.pw and coin(rng, 0.4):
                v = rng.uniform(0.1, 9, size=(len(m.pw), 2)).round(2)
                with mon.target("investment_period_weightings"):
                    if coin(rng, 0.3):
                        n.investment_period_weightings = pd.Series(v[:, 0], index=n.investment_periods)
                        v[:, 1] = v[:, 0]
                    elif coin(rng):
                        n.investment_period_weightings = pd.DataFrame(v, index=n.investment_periods, columns=["objective", "years"])
                    else:
                        n.investment_period_weightings["years"] = v[:, 1]
                        v[:, 0] = [x[0] for x in m.pw.values()]
                m.pw = dict(zip(m.pw, v.tolist()))
                tag = "weights:periods"
            else:
                v = rng.uniform(0.1, 9, size=(len(m.sns), 3)).round(2)
                with mon.target("snapshot_weightings"):
                    if coin(rng, 0.3):
                        n.snapshot_weightings = pd.Series(v[:, 0], index=n.snapshots)
                        v = np.repeat(v[:, :1], 3, 1)
                    elif coin(rng):
                        n.snapshot_weightings = pd.DataFrame(v, index=n.snapshots, columns=["objective", "stores", "generators"])
                    else:
                        n.snapshot_weightings.loc[:, :] = v
                m.w = dict(zip(m.sns, v.tolist()))
        elif op == "refuse":
            mon.count("refused")
            many = m.multi and len(dict.fromkeys(s[0] for s in m.sns)) > 1
            first = n.periods[:1] if m.multi else None
            cands = [
                ("timezone", ValueError, lambda: n.set_snapshots(pd.date_range("2020", periods=3, freq="h", tz="UTC"))),
                ("three-levels", ValueError, lambda: n.set_snapshots(pd.MultiIndex.from_product([[1], [2], [3]]))),
                ("falling-periods", ValueError, lambda: n.set_investment_periods([2030, 2020])),
                ("repeated-periods", ValueError, lambda: n.set_investment_periods([2030, 2030])),
                ("text-periods", ValueError, lambda: n.set_investment_periods(["2030"])),
                ("weights-of-other-snapshots", AssertionError, lambda: setattr(n, "snapshot_weightings", pd.DataFrame(1.0, index=["zz"], columns=["objective", "stores", "generators"]))),
                ("set-timesteps", NotImplementedError, lambda: setattr(n, "timesteps", [1])),
            ]
            if m.multi:
                cands.append(("unknown-period", ValueError, lambda: n.set_investment_periods([1999])))
            if many:
                cands.append(("subset-of-periods", NotImplementedError, lambda: n.set_investment_periods(first)))
            if m.pw:
                cands.append(("weights-of-other-periods", AssertionError, lambda: setattr(n, "investment_period_weightings", pd.DataFrame(1.0, index=[1], columns=["objective", "years"]))))
            name, exc, f = cands[int(rng.integers(len(cands)))]
            tag = "refuse:" + name
            try:
                f()
            except exc:
                mon.count("evaluations")
            except Exception as e:
                mon.violate(f"refused-with:{name}:{type(e).__name__}", str(e)[:200])
            else:
                mon.violate(f"accepted:{name}", str(m.sns[:3]))
        else:
            fill(rng, n, m)
        mon.count("changes")
        sig.append(tag)
        if not compare(mon, n, m, tag.split(":")[0]):
            return
    mon.sig(kind, sig)
    mon.sample = dict(history=sig, snapshots=len(m.sns))
