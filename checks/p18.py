"""P18 network editing: histories of add / overwrite / remove / rename against a dictionary model."""
import csv
from pathlib import Path

import numpy as np
import pandas as pd

import pypsa
from pypsa.descriptors import get_switchable_as_dense
from vlib.core import REPO
from vlib.gen import coin, pick

RULE = "a random history of edits (add, overwrite, remove, rename, rejected edits) after each of which the whole network was compared with a dictionary model fed with the same edits; distinct by the sequence of operations"
ASSUMPTIONS = [
    "the order of components after overwriting is not specified",
    "an output series may or may not list components added after it was set (the default applies then)",
]
QUICK, THOROUGH = 300, 9000
REQUIRED = {"edits": 2500, "rejected": 400, "renames": 250, "removes": 300, "overwrites": 150, "skipped_existing": 150, "states": 2500, "copies": 150, "series": 1500}
CLASSES = ["Bus", "Carrier", "Generator", "Load", "Line", "Link", "StorageUnit", "Store", "Transformer", "ShuntImpedance", "GlobalConstraint", "LineType", "TransformerType"]
LIST = dict(zip(CLASSES, ["buses", "carriers", "generators", "loads", "lines", "links", "storage_units", "stores", "transformers", "shunt_impedances", "global_constraints", "line_types", "transformer_types"]))
REF = {  # class -> {attribute: referenced class}
    "Bus": {"carrier": "Carrier"},
    "Generator": {"bus": "Bus", "carrier": "Carrier"},
    "Load": {"bus": "Bus", "carrier": "Carrier"},
    "StorageUnit": {"bus": "Bus", "carrier": "Carrier"},
    "Store": {"bus": "Bus", "carrier": "Carrier"},
    "ShuntImpedance": {"bus": "Bus"},
    "Line": {"bus0": "Bus", "bus1": "Bus", "carrier": "Carrier", "type": "LineType"},
    "Transformer": {"bus0": "Bus", "bus1": "Bus", "type": "TransformerType"},
    "Link": {"bus0": "Bus", "bus1": "Bus", "carrier": "Carrier"},
}


def load_spec():
    """Own reading of the documented attribute tables."""
    out = {}
    for c, ln in LIST.items():
        d = {}
        with open(Path(REPO) / "pypsa/data/component_attrs" / f"{ln}.csv", newline="") as f:
            for row in csv.DictReader(f):
                t, raw = row["type"], row["default"]
                kind = "series" if t == "series" else "both" if t == "static or series" else "static"
                if t == "boolean":
                    typ, default = bool, raw == "True"
                elif t == "int":
                    typ, default = int, int(float(raw))
                elif t == "string":
                    typ, default = str, "" if raw in ("n/a", "", "None") else raw
                elif t == "geometry":
                    typ, default = None, None
                else:
                    typ, default = float, float("nan") if raw in ("n/a", "") else float(raw)
                d[row["attribute"]] = (kind, typ, default)
        d.pop("name")
        out[c] = d
    return out


SPEC = load_spec()


def same(a, b):
    if isinstance(b, float) and np.isnan(b):
        return a is None or (not isinstance(a, str) and pd.isna(a))
    try:
        if a is None or (not isinstance(a, str) and pd.isna(a)):
            return False
    except (TypeError, ValueError):
        return False
    return type(a) in (bool, np.bool_) and bool(a) == b if isinstance(b, bool) else a == b


class Model:
    """What the network should contain."""

    def __init__(self, snapshots):
        self.snapshots = snapshots
        self.static = {c: {} for c in CLASSES}
        self.dyn = {c: {} for c in CLASSES}
        self.ordered = {c: True for c in CLASSES}
        self.custom = {c: set() for c in CLASSES}
        self.spec = {c: dict(SPEC[c]) for c in CLASSES}

    def clone(self):
        m = Model(self.snapshots)
        m.static = {c: {i: dict(v) for i, v in d.items()} for c, d in self.static.items()}
        m.dyn = {c: {k: dict(v) for k, v in d.items()} for c, d in self.dyn.items()}
        m.ordered = dict(self.ordered)
        m.custom = {c: set(v) for c, v in self.custom.items()}
        m.spec = {c: dict(v) for c, v in self.spec.items()}
        return m

    def ports(self, attrs):
        for k in attrs:
            if k.startswith("bus") and k[3:].isdigit() and k not in self.spec["Link"]:
                i = k[3:]
                self.spec["Link"]["bus" + i] = ("static", str, "")
                self.spec["Link"]["efficiency" + i] = ("both", float, 1.0)
                self.spec["Link"]["p" + i] = ("series", float, 0.0)
                for v in self.static["Link"].values():  # existing links get the default
                    v.setdefault("bus" + i, "")
                    v.setdefault("efficiency" + i, 1.0)

    def add(self, c, names, static, series, overwrite):
        """static: {attr: [value per name]}; series: {attr: array(T, names)}"""
        if c == "Link":
            self.ports(static)
        spec = self.spec[c]
        old = [i for i in names if i in self.static[c]]
        new = [i for i in names if overwrite or i not in self.static[c]]
        if overwrite and old:
            self.ordered[c] = False
            for k in self.dyn[c]:
                for i in old:
                    self.dyn[c][k].pop(i, None)
        for k in static:
            if k not in spec:
                self.custom[c].add(k)
                for v in self.static[c].values():
                    v.setdefault(k, float("nan"))
        for k, (pos) in ((n, p) for p, n in enumerate(names) if n in new):
            row = {}
            for a, (kind, typ, default) in spec.items():
                if kind == "series":
                    continue
                v = static[a][pos] if a in static else default
                if v is None or (isinstance(v, float) and np.isnan(v)):
                    v = default
                row[a] = v if typ is None else typ(v)
            for a in self.custom[c]:
                row[a] = static[a][pos] if a in static else float("nan")
            self.static[c][k] = row
            for a, vals in static.items():
                if a in spec and spec[a][0] == "series":
                    self.dyn[c].setdefault(a, {})[k] = np.full(len(self.snapshots), float(vals[pos]))
            for a, vals in series.items():
                self.dyn[c].setdefault(a, {})[k] = np.asarray(vals[:, pos], dtype=float)

    def remove(self, c, names):
        for i in names:
            del self.static[c][i]
            for k in self.dyn[c]:
                self.dyn[c][k].pop(i, None)

    def rename(self, c, m):
        self.static[c] = {m.get(i, i): v for i, v in self.static[c].items()}
        for k, d in self.dyn[c].items():
            self.dyn[c][k] = {m.get(i, i): v for i, v in d.items()}
        for o, d in self.static.items():
            for v in d.values():
                for a in v:
                    tgt = REF.get(o, {}).get(a)
                    if tgt is None and o == "Link" and a.startswith("bus"):
                        tgt = "Bus"
                    if tgt == c and v[a] in m:
                        v[a] = m[v[a]]


def compare(mon, n, m, why, classes=CLASSES):
    ok = True
    mon.count("states")
    for c in classes:
        st = n.static(c)
        names = list(m.static[c])
        got = list(st.index)
        good = mon.check(
            (got == names) if m.ordered[c] else (sorted(got) == sorted(names) and len(set(got)) == len(got)),
            f"names:{why}", lambda: f"{c}: {got} != {names}")
        if not good:
            return False
        missing = [a for a in list(next(iter(m.static[c].values()), {})) if a not in st.columns and not (
            a in m.custom[c] and all(same(float("nan"), v[a]) for v in m.static[c].values()))]
        mon.check(not missing, f"attributes-missing:{why}", lambda: f"{c}: {missing}")
        for a in st.columns if names else []:
            if a not in next(iter(m.static[c].values())):
                if a in m.custom[c]:
                    mon.check(st[a].isna().all(), f"custom-attribute:{why}", f"{c}.{a}")
                    continue
                mon.violate(f"unexpected-attribute:{why}", f"{c}.{a}")
                continue
            col = st[a]
            bad = [(i, col[i], m.static[c][i][a]) for i in names if m.spec[c].get(a, (0, 0))[1] is not None and not same(col[i], m.static[c][i][a])]
            if not mon.check(not bad, f"static:{why}", lambda: f"{c}.{a}: (name, got, want) {bad[:4]}"):
                ok = False
            typ = m.spec[c].get(a, (0, None))[1]
            if typ in (bool, int, float):
                want = {bool: "b", int: "i", float: "f"}[typ]
                mon.check(col.dtype.kind == want, f"dtype:{why}", lambda: f"{c}.{a} {col.dtype}")
        dy = n.dynamic(c)
        for a in set(dy) | set(m.dyn[c]):
            want = m.dyn[c].get(a, {})
            if a not in dy:
                mon.check(not want, f"series-missing:{why}", lambda: f"{c}_t.{a}")
                continue
            df = dy[a]
            kind, _, default = m.spec[c].get(a, ("custom", None, None))
            if not mon.check(df.index.equals(n.snapshots), f"series-index:{why}", lambda: f"{c}_t.{a}: {df.index[:3]}"):
                continue
            if not mon.check(df.columns.is_unique, f"series-columns-duplicated:{why}", lambda: f"{c}_t.{a}: {list(df)}"):
                continue
            extra = [i for i in df if i not in want and (kind != "series" or i not in m.static[c])]
            lack = [i for i in want if i not in df]
            if not mon.check(not extra and not lack, f"series-columns:{why}", lambda: f"{c}_t.{a}: unexpected {extra[:4]} missing {lack[:4]}"):
                continue
            for i in df:
                w = want.get(i, np.full(len(df), default if kind == "series" else 0.0))
                mon.count("series")
                mon.close(df[i].to_numpy(), w, f"series:{why}", 0, 0, lambda: f"{c}_t.{a}[{i}]")
        # dense view of one varying attribute
        both = [a for a, (k, t, _) in m.spec[c].items() if k == "both"]
        if both and names and len(n.snapshots):
            a = both[len(names) % len(both)]
            d = get_switchable_as_dense(n, c, a)
            for i in names[:4]:
                w = m.dyn[c].get(a, {}).get(i, np.full(len(n.snapshots), m.static[c][i][a]))
                mon.close(d[i].to_numpy(), w, f"dense:{why}", 0, 0, lambda: f"{c} {a} {i}")
        mon.check(getattr(n, LIST[c]) is st and n.c[LIST[c]].static is st and getattr(n, LIST[c] + "_t") is dy and n.components[c].dynamic is dy, f"accessors:{why}", c)
    return ok


def value(rng, typ, attr, c, m):
    if attr in REF.get(c, {}) or (c == "Link" and attr.startswith("bus")):
        tgt = REF.get(c, {}).get(attr, "Bus")
        pool = list(m.static[tgt])
        return str(pick(rng, pool)) if pool and coin(rng, 0.9) else ("" if tgt != "Bus" else "nowhere")
    if typ is bool:
        return bool(coin(rng))
    if typ is int:
        return int(rng.integers(0, 50))
    if typ is float:
        return float(pick(rng, [0.0, 1.0, float(rng.normal()), 1e6, -2.5, np.inf, float(rng.integers(1, 9))]))
    return str(pick(rng, ["", "x", "AC", "7", "a b", "ü"]))


class History:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        T = int(rng.integers(1, 6))
        self.n = n = pypsa.Network(ignore_standard_types=bool(coin(rng, 0.8)))
        self.std = {} if not len(n.line_types) else {c: n.static(c).copy() for c in ("LineType", "TransformerType")}
        if coin(rng, 0.15):
            n.set_snapshots(pd.MultiIndex.from_product([[2020, 2030], range(T)]))
            n.investment_periods = [2020, 2030]
        elif coin(rng, 0.85):
            n.set_snapshots(pd.date_range("2020", periods=T, freq="h") if coin(rng) else range(T))
        self.m = Model(n.snapshots)
        for c, df in self.std.items():  # the standard library is part of the network
            for i, r in df.iterrows():
                row = {a: (d if a not in df else r[a]) for a, (k, t, d) in self.m.spec[c].items() if k != "series"}
                for a in row:
                    t = self.m.spec[c][a][1]
                    row[a] = t(row[a])
                for a in df:
                    if a not in row:
                        self.m.custom[c].add(a)
                        row[a] = r[a]
                self.m.static[c][i] = row
        self.k = 0
        self.sig = []
        sel = [str(x) for x in rng.choice(CLASSES[2:], size=int(rng.integers(2, 6)), replace=False)]
        self.classes = ["Bus", "Carrier"] + sel + [x for x in ("Link", "Generator") if coin(rng, 0.4)]

    def fresh(self, c):
        self.k += 1
        return f"{c[0].lower()}{self.k}" if coin(self.rng, 0.85) else str(self.k + 1000)

    # ---- operations
    def add(self):
        rng, m, n = self.rng, self.m, self.n
        c = str(pick(rng, self.classes))
        ex = list(m.static[c])
        overwrite = coin(rng, 0.5)
        single = coin(rng, 0.35)
        k = 1 if single else int(rng.integers(1, 5))
        suffix = str(pick(rng, ["", "", "", "", " s", "_2"]))
        base = []
        again = 0.75 if coin(rng, 0.35) else 0.1
        for _ in range(k):
            if ex and coin(rng, again):
                e = str(pick(rng, ex))
                if suffix and not e.endswith(suffix):
                    e = self.fresh(c)
                elif suffix:
                    e = e[: -len(suffix)]
                base.append(e)
            else:
                base.append(self.fresh(c))
        base = list(dict.fromkeys(base))
        names = [b + suffix for b in base]
        k = len(names)
        spec = dict(m.spec[c])
        if c == "Link":
            for i in rng.choice([2, 3, 4], size=int(rng.integers(0, 3)), replace=False):
                spec.setdefault(f"bus{i}", ("static", str, ""))
        attrs = [a for a, (kd, t, _) in spec.items() if t is not None and coin(rng, 0.25)]
        attrs += [a for a in REF.get(c, {}) if a.startswith("bus") and a not in attrs]
        attrs += [f"bus{i}" for i in (2, 3, 4) if c == "Link" and f"bus{i}" in spec and f"bus{i}" not in attrs and coin(rng, 0.6)]
        if c == "Link":  # efficiencies of ports need their bus (known once it has been given)
            attrs = [a for a in attrs if not (a.startswith("efficiency") and a[10:].isdigit() and f"bus{a[10:]}" not in attrs and a not in m.spec["Link"])]
        if coin(rng, 0.2):
            attrs.append(str(pick(rng, ["my_tag", "my_number"])))
        kw, static, series = {}, {}, {}
        T = len(m.snapshots)
        for a in attrs:
            kind, typ, default = spec.get(a, ("static", str if a == "my_tag" else float, None))
            if a == "my_number" and coin(rng, 0.4):
                kind = "customseries"
            if kind in ("both", "customseries") and coin(rng, 0.5 if kind == "both" else 1):
                arr = rng.normal(size=(T, k)).round(3)
                series[a] = arr
                if single:
                    kw[a] = pick(rng, [0, 1, 2])
                    kw[a] = [list(arr[:, 0]), pd.Series(arr[:, 0], index=n.snapshots), arr[:, 0].copy()][int(kw[a])]
                else:
                    form = int(rng.integers(0, 3))
                    kw[a] = [arr.copy(), pd.DataFrame(arr, index=n.snapshots, columns=base), pd.DataFrame(arr, index=n.snapshots, columns=names)][form]
                continue
            if kind == "series" and not single and coin(rng, 0.3):
                arr = rng.normal(size=(T, k)).round(3)
                series[a] = arr
                kw[a] = pd.DataFrame(arr, index=n.snapshots, columns=names)
                continue
            if single:
                v = [value(rng, typ, a, c, m)]
                kw[a] = v[0]
            elif coin(rng, 0.35):
                v = [value(rng, typ, a, c, m)] * k
                kw[a] = v[0] if coin(rng, 0.6) else [v[0]]
            else:
                v = [value(rng, typ, a, c, m) for _ in range(k)]
                if typ is float and kind != "series" and a != "my_number" and coin(rng, 0.2):
                    v[0] = float("nan")
                kw[a] = [list(v), pd.Series(v, index=base), pd.Series(v, index=names), np.array(v), pd.Index(v)][int(rng.integers(0, 5))]
            static[a] = v
        arg = base[0] if single else pick(rng, [0, 1, 2])
        if not single:
            arg = [list(base), pd.Index(base), np.array(base)][int(arg)]
            if all(b.isdigit() for b in base) and coin(rng, 0.7):
                arg = [int(b) for b in base]
                kw = {a: v for a, v in kw.items()}
        elif base[0].isdigit() and coin(rng):
            arg = int(base[0])
        with self.mon.target("add"):
            ret = n.add(c, arg, suffix=suffix, overwrite=overwrite, **kw) if suffix or coin(rng) else n.add(c, arg, overwrite=overwrite, **kw)
        self.mon.check(isinstance(ret, pd.Index) and list(ret) == names, "returned-names", lambda: f"{c} {ret} != {names}")
        dup = [i for i in names if i in m.static[c]]
        if dup:
            self.mon.count("overwrites" if overwrite else "skipped_existing")
        m.add(c, names, static, series, overwrite)
        return f"add{'+' if overwrite else ''}{'!' if dup else ''}:{c}"

    def remove(self):
        rng, m, n = self.rng, self.m, self.n
        c = str(pick(rng, [c for c in CLASSES if m.static[c]] or ["Bus"]))
        ex = list(m.static[c])
        if not ex:
            return "noop"
        k = int(rng.integers(1, min(3, len(ex)) + 1))
        names = [ex[j] for j in rng.choice(len(ex), size=k, replace=False)]
        suffix = ""
        if all(x.endswith(" s") for x in names):
            suffix = " s"
        arg = [x[: len(x) - len(suffix)] for x in names]
        if k == 1 and coin(rng):
            arg = arg[0]
        with self.mon.target("remove"):
            if suffix:
                n.remove(c, arg, suffix=suffix)
            elif coin(rng, 0.8) or k == 1:
                n.remove(c, arg)
            else:
                n.remove(c, pd.Index(arg))
        m.remove(c, names)
        self.mon.count("removes")
        return f"remove:{c}"

    def rename(self):
        rng, m, n = self.rng, self.m, self.n
        c = str(pick(rng, [c for c in CLASSES if m.static[c]] + ["Bus", "Bus", "Carrier"]))
        ex = list(m.static[c])
        if not ex:
            return "noop"
        if len(ex) > 1 and coin(rng, 0.3):
            a, b = (ex[j] for j in rng.choice(len(ex), size=2, replace=False))
            mp = {a: b, b: a}
        else:
            mp = {str(pick(rng, ex)): self.fresh(c) + "r" for _ in range(int(rng.integers(1, 3)))}
        with self.mon.target("rename"):
            if coin(rng):
                n.rename_component_names(c, **mp)
            else:
                n.c[LIST[c]].rename_component_names(**mp)
        m.rename(c, mp)
        self.mon.count("renames")
        return f"rename:{c}"

    def reject(self):
        """Edits which must be refused and must not change anything."""
        rng, m, n, mon = self.rng, self.m, self.n, self.mon
        T = len(m.snapshots)
        c = str(pick(rng, ["Generator", "Load", "Store", "Link"]))
        A, B = self.fresh(c), self.fresh(c)
        long = [1.0] * (T + 3)
        other = pd.Index([f"q{j}" for j in range(T)])
        cases = [
            ("duplicate-names", ValueError, lambda: n.add(c, [A, A], p_set=1.0)),
            ("list-too-long", ValueError, lambda: n.add(c, [A, B], marginal_cost=[1.0, 2.0, 3.0])),
            ("single-list-too-long", ValueError, lambda: n.add(c, A, p_set=long)),
            ("series-names", ValueError, lambda: n.add(c, [A, B], marginal_cost=pd.Series([1.0, 2.0], index=["zz", A]))),
            ("series-order", ValueError, lambda: n.add(c, [A, B], marginal_cost=pd.Series([1.0, 2.0], index=[B, A]))),
            ("frame-names", ValueError, lambda: n.add(c, [A, B], p_set=pd.DataFrame(1.0, index=n.snapshots, columns=[A, "zz"]))),
            ("frame-order", ValueError, lambda: n.add(c, [A, B], p_set=pd.DataFrame(1.0, index=n.snapshots, columns=[B, A]))),
            ("frame-snapshots", ValueError, lambda: n.add(c, [A, B], p_set=pd.DataFrame(1.0, index=other, columns=[A, B]))),
            ("single-series-snapshots", ValueError, lambda: n.add(c, A, p_set=pd.Series(1.0, index=other))),
            ("array-shape", ValueError, lambda: n.add(c, [A, B], p_set=np.ones((T, 3)))),
            ("dict", NotImplementedError, lambda: n.add(c, [A, B], p_set={A: 1.0, B: 2.0})),
            ("unknown-class", Exception, lambda: n.add("Windmill", A)),
            ("remove-missing", KeyError, lambda: n.remove(c, A)),
            ("rename-to-number", ValueError, lambda: n.rename_component_names("Bus", **{next(iter(m.static["Bus"]), "x"): 3})),
        ]
        ex = list(m.static[c])
        if ex:
            cases.append(("remove-partly-missing", KeyError, lambda: n.remove(c, [ex[0], A])))
            cases.append(("overwrite-duplicate", ValueError, lambda: n.add(c, [ex[0], ex[0]], overwrite=True, p_set=3.0)))
            cases.append(("overwrite-misaligned", ValueError, lambda: n.add(c, [ex[0], A], overwrite=True, p_set=pd.DataFrame(1.0, index=n.snapshots, columns=[A, ex[0]]))))
        name, exc, f = cases[int(rng.integers(len(cases)))]
        mon.count("rejected")
        try:
            f()
        except exc:
            mon.count("evaluations")
        except Exception as e:
            mon.violate(f"rejected-with:{name}:{type(e).__name__}", str(e)[:200])
        else:
            mon.violate(f"accepted:{name}", c)
        return f"reject:{name}"


def pristine(mon, why):
    """Networks created now start from the documented defaults, whatever happened before."""
    x = pypsa.Network(ignore_standard_types=True)
    for c in CLASSES:
        d = x.components[c].ctype.defaults.drop("name")
        mon.check(list(d.index) == list(SPEC[c]), f"documented-attributes:{why}", lambda: f"{c}: {set(d.index) ^ set(SPEC[c])}")
        for a, (kind, typ, default) in SPEC[c].items():
            if a in d.index and typ is not None:
                mon.check(same(d.at[a, "default"], default), f"documented-default:{why}", lambda: f"{c}.{a}: {d.at[a, 'default']!r} != {default!r}")
        mon.check(not len(x.static(c)), f"new-network-not-empty:{why}", c)
        mon.check(set(x.dynamic(c)) == {a for a, v in SPEC[c].items() if v[0] != "static"}, f"new-network-series:{why}", lambda: f"{c}: {set(x.dynamic(c))}")
        if c in ("Link", "Generator"):
            x.add(c, "i")
            mon.check(set(x.static(c).columns) == {a for a, v in SPEC[c].items() if v[0] != "series"}, f"new-component-attributes:{why}", lambda: f"{c}: {sorted(x.static(c))}")


def case(rng, mon, i, tier):
    h = History(rng, mon)
    n, m = h.n, h.m
    compare(mon, n, m, "initial")
    kept = []
    steps = int(rng.integers(6, 22))
    for s in range(steps):
        op = str(rng.choice(["add", "remove", "rename", "reject"], p=[0.6, 0.13, 0.12, 0.15]))
        tag = getattr(h, op)()
        mon.count("edits")
        h.sig.append(tag)
        if mon.viol or not compare(mon, n, m, op):
            return
        if coin(rng, 0.1):
            with mon.target("copy"):
                kept.append((n.copy(), m.clone()))
            if coin(rng, 0.5):  # go on with the copy: the original must stay as it is
                (c, _) = kept.pop()
                kept.append((n, m.clone()))
                h.n = n = c
    for c, mm in kept:
        mon.count("copies")
        compare(mon, c, mm, "isolated-copy")
    pristine(mon, "after-edits")
    mon.sig(h.sig)
    mon.sample = dict(history=h.sig[:12], sizes={c: len(v) for c, v in m.static.items() if v})
