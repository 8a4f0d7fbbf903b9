"""P20 copies, slices and merges carry exactly the right content and share nothing."""
import numpy as np
import pandas as pd

import pypsa
from vlib.anynet import build, diff, view
from vlib.gen import coin, pick

RULE = "a random network full of data which was copied, sliced or merged; the result was compared with the selection computed from a neutral view of the source, and both were then altered to see whether they share data; distinct by operation and features"
ASSUMPTIONS = ["slices do not carry meta data, sub-networks or results of the whole network (they are shallow slices as documented)"]
QUICK, THOROUGH = 420, 15000
REQUIRED = {"copies": 120, "part_copies": 100, "slices": 120, "merges": 80, "refused": 60, "isolation": 350, "altered": 800}
ONE = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
BR = ("Line", "Transformer", "Link")


def cls(d):
    return d[0][0].split("[")[0].split(" ")[0] if d else ""


def alter(rng, n):
    """Change everything in place."""
    for c in sorted(n.all_components):
        st = n.static(c)
        for a in st.columns:
            if st[a].dtype.kind == "f" and len(st):
                st.loc[st.index, a] = 77.25
            elif a in ("bus", "bus0", "carrier", "my_text") and len(st):
                st.loc[st.index, a] = "altered"
        for a, df in n.dynamic(c).items():
            if df.size:
                df.iloc[:, :] = -55.5
    n.snapshot_weightings.iloc[:, :] = 31.0
    if len(n.investment_period_weightings):
        n.investment_period_weightings.iloc[:, :] = 13.0
    if isinstance(n.meta, dict):
        n.meta["altered"] = 1
        for v in list(n.meta.values()):
            if isinstance(v, dict):
                v["altered"] = 2


def isolated(rng, mon, a, b, why, meta=True):
    va, vb = view(a), view(b)
    first = coin(rng)
    x, y, vy = (a, b, vb) if first else (b, a, va)
    alter(rng, x)
    mon.count("isolation")
    mon.count("altered", 2)
    d = diff(vy, view(y), skip=() if meta else ("meta",))
    mon.check(not d, f"shared:{why}:{cls(d)}", lambda: f"changing the {'source' if first else 'result'} altered the other: {d}")


def restrict(v, sns):
    """View restricted to snapshots."""
    pos = [v["snapshots"].index(s) for s in sns]
    out = dict(v)
    out["snapshots"] = out["wi"] = list(sns)
    out["w"] = v["w"][pos]
    out["dyn"] = {c: {a: {i: x[pos] for i, x in d.items()} for a, d in e.items()} for c, e in v["dyn"].items()}
    if v["periods"]:
        keep = list(dict.fromkeys(s[0] for s in sns))
        out["periods"] = keep
        out["pw"] = v["pw"].loc[keep] if len(v["pw"]) else v["pw"]
    return out


def subset(rng, n):
    S = n.snapshots
    k = int(rng.integers(1, len(S) + 1))
    r = rng.random()
    if r < 0.4:
        st = int(rng.integers(0, len(S) - k + 1))
        return S[st:st + k]
    if r < 0.6 and n.has_periods:
        return S[S.get_level_values(0) == int(pick(rng, list(n.periods)))]
    return S[np.sort(rng.choice(len(S), size=k, replace=False))]


def prep(rng, n):
    if coin(rng, 0.35):
        for c in ("Line", "Transformer"):  # valid topology
            for a in ("active",):
                n.static(c)[a] = True
        n.determine_network_topology()


def case(rng, mon, i, tier):
    op = ["copy", "part", "slice", "merge"][i % 4]
    n = build(rng)
    if op == "copy":
        prep(rng, n)
        v = view(n)
        with mon.target("copy"):
            m = n.copy()
        mon.count("copies")
        d = diff(v, view(m))
        mon.check(not d, f"copy:{cls(d)}", lambda: d)
        mon.check(not diff(v, view(n)), "copy-changes-source", "")
        for s in m.sub_networks.get("obj", []):
            mon.check(s.n is m, "copy-sub-network", s.name)
        mon.check(all(m.components[c].n is m for c in m.all_components), "copy-components", "")
        isolated(rng, mon, n, m, "copy")
        with mon.target("edit-copy"):
            v = view(n)
            m.add("Bus", "only in the copy")
            m.remove("Bus", list(m.buses.index)[:1])
        d = diff(v, view(n))
        mon.check(not d, f"copy-edit:{cls(d)}", lambda: d)
    elif op == "part":
        prep(rng, n)
        v = view(n)
        S = subset(rng, n)
        kw = {}
        want = list(S)
        r = rng.random()
        if r < 0.12:
            kw["snapshots"] = []
            want = None
        elif n.has_periods and r < 0.35:
            ps = sorted(int(p) for p in rng.choice(list(n.periods), size=int(rng.integers(1, len(n.periods) + 1)), replace=False))
            kw["investment_periods"] = ps
            want = [s for s in n.snapshots if s[0] in ps]
            if coin(rng) and len(x := [s for s in S if s[0] in ps]):
                kw["snapshots"] = S
                want = x
        else:
            kw["snapshots"] = S if coin(rng) else list(S)
            if len(S) == 1 and not n.has_periods and coin(rng):
                kw["snapshots"] = S[0]
        before = repr(kw.get("snapshots"))
        with mon.target("copy-part"):
            m = n.copy(**kw)
        mon.count("part_copies")
        mon.check(repr(kw.get("snapshots")) == before, "copy-part-changes-argument", before)
        vm = view(m)
        if want is None:
            d = diff(v, vm, skip=("Bus.generator", "snapshots", "names", "wi", "w", "periods", "pw") + tuple(a for c in v["dyn"] for a in v["dyn"][c]) + tuple(a for c in vm["dyn"] for a in vm["dyn"][c]))
            mon.check(all(not e for e in vm["dyn"].values()), "copy-part-series-without-snapshots", lambda: {c: list(e) for c, e in vm["dyn"].items() if e})
        else:
            d = diff(restrict(v, want), vm, skip=("Bus.generator",))
        mon.check(not d, f"copy-part:{cls(d)}", lambda: d)
        mon.check(not diff(v, view(n)), "copy-part-changes-source", "")
        for s in m.sub_networks.get("obj", []):
            mon.check(s.n is m, "copy-part-sub-network", s.name)
        if want is not None:
            isolated(rng, mon, n, m, "copy-part", meta=False)
    elif op == "slice":
        prep(rng, n)
        v = view(n)
        buses = list(n.buses.index)
        sel = [b for b in buses if coin(rng, 0.6)] or buses[:1]
        form = int(rng.integers(0, 4))
        key = [list(sel), n.buses.index.isin(sel), pd.Series(n.buses.index.isin(sel), index=n.buses.index), pd.Index(sel)][form]
        want = list(n.snapshots)
        if coin(rng, 0.5):
            S = subset(rng, n)
            want = list(S)
            f2 = int(rng.integers(0, 4))
            ti = [n.snapshots.isin(S), S, list(S), slice(want[0], want[-1])][f2]
            if f2 == 3:
                a, b = v["snapshots"].index(want[0]), v["snapshots"].index(want[-1])
                want = v["snapshots"][a:b + 1]
            if len(S) == 1 and f2 == 2:
                ti = S[0]
            with mon.target("slice-time"):
                m = n[ti, key]
        else:
            with mon.target("slice"):
                m = n[key]
        mon.count("slices")
        e = restrict(v, want)
        keep = {c: set(x) for c, x in v["static"].items()}
        keep["Bus"] = set(sel)
        keep["SubNetwork"] = set()
        for c in ONE:
            keep[c] = {j for j, r in v["static"][c].items() if r["bus"] in sel}
        for c in BR:
            keep[c] = {j for j, r in v["static"][c].items() if r["bus0"] in sel and r["bus1"] in sel}
        e["static"] = {c: {j: dict(r) for j, r in x.items() if j in keep[c]} for c, x in v["static"].items()}
        for r in e["static"]["Bus"].values():
            r["sub_network"] = ""
        e["dyn"] = {c: {a: {j: y for j, y in d.items() if j in keep[c]} for a, d in x.items()} for c, x in e["dyn"].items()}
        e["dyn"] = {c: {a: d for a, d in x.items() if d} for c, x in e["dyn"].items()}
        vm = view(m)
        d = diff(e, vm, skip=("meta", "Bus.generator"))
        mon.check(not d, f"slice:{cls(d)}", lambda: d)
        mon.check(not diff(v, view(n)), "slice-changes-source", "")
        isolated(rng, mon, n, m, "slice", meta=False)
    else:
        kind = "time" if coin(rng) else "int"
        T = len(n.snapshots)
        o = build(rng, time_kind="int")
        # disjoint names and common snapshots
        for c in sorted(o.all_components - {"SubNetwork", "LineType", "TransformerType"}):
            if len(o.static(c)):
                with mon.target("rename"):
                    o.rename_component_names(c, **{j: "o " + j for j in o.static(c).index})
        bad = str(pick(rng, ["", "", "", "snapshots", "weights", "names"]))
        o.set_snapshots(n.snapshots)
        for c in o.all_components:
            for a in list(o.dynamic(c)):
                o.dynamic(c)[a] = pd.DataFrame(rng.normal(size=(len(n.snapshots), o.dynamic(c)[a].shape[1])), index=n.snapshots, columns=o.dynamic(c)[a].columns)
        o.snapshot_weightings = n.snapshot_weightings.copy()
        if bad == "" and coin(rng, 0.3):
            o.snapshot_weightings = o.snapshot_weightings[["stores", "generators", "objective"]]
        if bad == "snapshots":
            o.set_snapshots([f"zz{j}" for j in range(3)])
        elif bad == "weights":
            w = o.snapshot_weightings.copy()
            w.iloc[0, 0] += 0.5
            o.snapshot_weightings = w
        elif bad == "names":
            o.add("Bus", n.buses.index[-1:])
        vn, vo = view(n), view(o)
        inplace = coin(rng, 0.4)
        skip = [str(x) for x in rng.choice(["Generator", "Load", "Link", "Carrier"], size=int(rng.integers(0, 3)), replace=False)] if coin(rng, 0.3) else None
        wt = coin(rng, 0.8)
        kw = dict(inplace=inplace, with_time=wt)
        if skip:
            kw["components_to_skip"] = skip
        if bad and (wt or bad == "names"):
            mon.count("refused")
            try:
                n.merge(o, **kw)
            except ValueError:
                mon.count("evaluations")
            except Exception as ex:
                mon.violate(f"merge-refused-with:{bad}:{type(ex).__name__}", str(ex)[:200])
            else:
                mon.violate(f"merge-accepted:{bad}", "")
            d = diff(vn, view(n)) or diff(vo, view(o))
            mon.check(not d, f"refused-merge-changes:{bad}:{cls(d)}", lambda: d)
        else:
            with mon.target("merge"):
                m = n + o if not inplace and not skip and wt and coin(rng) else n.merge(o, **kw)
            mon.count("merges")
            mon.check((m is None) == inplace, "merge-return", str(type(m)))
            m = n if inplace else m
            if not inplace:
                mon.check(not diff(vn, view(n)), "merge-changes-receiver", lambda: diff(vn, view(n)))
            mon.check(not diff(vo, view(o)), "merge-changes-other", lambda: diff(vo, view(o)))
            vm = view(m)
            skipped = set(skip or []) | {"SubNetwork", "LineType", "TransformerType"}
            for c in vn["static"]:
                a, b = vn["static"][c], {} if c in skipped else vo["static"][c]
                mon.check(list(vm["static"][c]) == list(a) + list(b), "merge-names", lambda: f"{c} {list(vm['static'][c])} {list(a)} {list(b)}")
                for src in (a, b):
                    for j, r in src.items():
                        got = vm["static"][c].get(j, {})
                        bad_ = [(t, r[t], got.get(t, "absent")) for t in r if not (t in got and (got[t] == r[t] or (got[t] != got[t] and r[t] != r[t])))]
                        mon.check(not bad_, "merge-static", lambda: f"{c} {j}: {bad_[:4]}")
                want = {t: dict(d) for t, d in vn["dyn"][c].items()}
                if c not in skipped and wt:
                    for t, d in vo["dyn"][c].items():
                        want.setdefault(t, {}).update(d)
                for t, d in want.items():
                    g = vm["dyn"][c].get(t, {})
                    for j, x in d.items():
                        mon.check(j in g and np.array_equal(g[j], x, equal_nan=True), "merge-series", lambda: f"{c}_t.{t}[{j}]: {g.get(j)} want {x}")
                    extra = [j for j in g if j not in d and t not in n.components[c]["attrs"].index[n.components[c]["attrs"].type == "series"]]
                    mon.check(not extra, "merge-extra-series", lambda: f"{c}_t.{t} {extra}")
            k = ("snapshots", "wi", "periods", "name")
            mon.check(all(vm[x] == vn[x] for x in k), "merge-index", lambda: [(x, vm[x], vn[x]) for x in k if vm[x] != vn[x]])
            mon.close(vm["w"], vn["w"], "merge-weights", 0, 0)
            isolated(rng, mon, o, m, "merge")
            if not inplace:
                pass
    mon.sig(op, [len(n.static(c)) for c in ONE + BR], n.snapshots.nlevels, str(n.snapshots.dtype), i)
    mon.sample = dict(operation=op, snapshots=len(n.snapshots), components={c: len(n.static(c)) for c in ONE + BR})
