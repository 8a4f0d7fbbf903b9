"""Writing and reading networks in all formats, and a comparison of content up to what formats may omit."""
from __future__ import annotations

import os
import pathlib

import numpy as np

import pypsa
from vlib.anynet import eqv, view
from vlib.gen import coin, pick

FORMATS = {"netcdf": ("x.nc", "netcdf"), "hdf5": ("x.h5", "hdf5"), "csv": ("x", "csv_folder"), "excel": ("x.xlsx", "excel")}
DERIVED = {"sub_network", "r_pu", "x_pu", "g_pu", "b_pu"}
HOSTILE = ["101", "007", "1.50", "1e3", "True", "nan", "NA", "None", "null", "inf", "a;b", 'q"uo', "x, y", " lead", "ä/ö"]


def hostile(rng, n):
    """Text which parsers like to misread."""
    for c, a in (("Generator", "type"), ("Generator", "carrier"), ("Load", "carrier"), ("Bus", "unit"), ("Carrier", "nice_name"), ("Carrier", "color"), ("Link", "type"), ("GlobalConstraint", "carrier_attribute"), ("Store", "type")):
        st = n.static(c)
        if len(st) and coin(rng, 0.4):
            st[a] = [str(pick(rng, HOSTILE + ([] if a in ("carrier_attribute",) else ["", ""]))) for _ in st.index]
    if coin(rng, 0.3):
        n.name = str(pick(rng, ["007", "NA", "2030", "1.0", "base case, 2"]))
    if coin(rng, 0.25) and "NA" not in n.buses.index:
        n.add("Bus", [str(pick(rng, ["NA", "007", "1e5", "None"]))])
        n.add("Load", "load of the odd bus", bus=n.buses.index[-1], p_set=3.0)
    return n


def same_as_default(n, c, a, v):
    at = n.components[c]["attrs"]
    return a in at.index and eqv(v, at.at[a, "default"]) or v == "" or (isinstance(v, float) and np.isnan(v)) or (a.startswith("efficiency") and v == 1.0)


def content_diff(n, v, m, tol=1e-12, skip_time=False, standard=False, only_time=None):
    """Differences between the view v (taken of n) and the imported network m."""
    w = view(m)
    out = []
    for k in ("snapshots", "names", "wi", "periods", "name", "meta", "crs"):
        if v[k] != w[k]:
            out.append((k, v[k], w[k]))
    if sorted(v["wcols"]) != sorted(w["wcols"]):
        out.append(("weighting columns", v["wcols"], w["wcols"]))
    elif v["w"].shape != w["w"].shape or not np.allclose(v["w"][:, np.argsort(v["wcols"])], w["w"][:, np.argsort(w["wcols"])], rtol=tol, atol=0):
        out.append(("weightings", v["w"].tolist()[:3], w["w"].tolist()[:3]))
    x, y = v["pw"], w["pw"]
    if list(x.index) != list(y.index) or (len(x) and (sorted(x) != sorted(y) or not np.allclose(x[sorted(x)].to_numpy(float), y[sorted(x)].to_numpy(float), rtol=tol, atol=0))):
        out.append(("period weightings", x.to_dict(), y.to_dict()))
    for c in v["static"]:
        if c == "SubNetwork":
            continue
        a, b = v["static"][c], w["static"][c]
        if c in ("LineType", "TransformerType") and not standard:
            std = n.components[c]["standard_types"].index
            a, b = ({i: t for i, t in s.items() if i not in std} for s in (a, b))
        if list(a) != list(b):
            out.append((f"{c} names", list(a), list(b)))
            continue
        at = n.components[c]["attrs"]
        for i in a:
            for t in sorted((set(a[i]) | set(b[i])) - DERIVED):
                if t not in a[i] or t not in b[i]:
                    u, net = (a[i][t], n) if t in a[i] else (b[i][t], m)
                    if not same_as_default(net, c, t, u):
                        out.append((f"{c}.{t}", f"{'lost' if t in a[i] else 'additional'} {i}", u))
                elif c == "Shape" and t == "geometry":
                    if not a[i][t].equals_exact(b[i][t], 1e-9):
                        out.append((f"{c}.{t}[{i}]", a[i][t], b[i][t]))
                elif not eqv(a[i][t], b[i][t], tol) and not (t not in at.index and {str(a[i][t]), str(b[i][t])} == {"nan", ""}):
                    out.append((f"{c}.{t}[{i}]", a[i][t], b[i][t]))
        if skip_time:
            if any(w["dyn"][c].values()):
                out.append((f"{c}_t", "no series", list(w["dyn"][c])))
            continue
        dv, dw = v["dyn"][c], w["dyn"][c]
        at = n.components[c]["attrs"]
        if "!index" in dw:
            out.append((f"{c}_t index", list(dw["!index"]), ""))
        for t in sorted((set(dv) | set(dw)) - {"!index"}):
            U, W = dv.get(t, {}), dw.get(t, {})
            for i in sorted(set(U) | set(W)):
                if i not in a:
                    if i in W:
                        out.append((f"{c}_t.{t}", "series of unknown component", i))
                    continue
                p, q = (np.asarray(D[i], float) if i in D else None for D in (U, W))
                T = len(v["snapshots"])
                known = t in at.index or t.rstrip("0123456789") in ("efficiency", "p")
                if not known and (p is None or q is None):
                    out.append((f"{c}_t.{t}[{i}]", "lost" if q is None else "additional", ""))
                    continue
                dflt = (float(at.at[t, "default"]) if t in at.index and at.at[t, "default"] not in ("", None) else 1.0 if t.startswith("eff") else 0.0)
                # without series the static value applies, or the default for outputs
                p, q = (np.full(T, float(s[i].get(t, dflt))) if z is None else z for z, s in ((p, a), (q, b)))
                if p.shape != q.shape or not np.allclose(p, q, rtol=max(tol, 1e-12), atol=0, equal_nan=True):
                    out.append((f"{c}_t.{t}[{i}]", p.tolist()[:4], q.tolist()[:4]))
    return out[:6]


def write(rng, n, fmt, d, **kw):
    name, f = FORMATS[fmt]
    path = os.path.join(d, name)
    p = pathlib.Path(path) if coin(rng) else path
    getattr(n, "export_to_" + f)(p, **kw)
    return p


def read(rng, fmt, p, constructor=None, ignore=True, **kw):
    f = FORMATS[fmt][1]
    if constructor if constructor is not None else (not kw and coin(rng)):
        return pypsa.Network(p, ignore_standard_types=ignore)
    m = pypsa.Network(ignore_standard_types=ignore)
    getattr(m, "import_from_" + f)(p, **kw)
    return m
