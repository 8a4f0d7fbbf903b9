"""P21 a stored network is read back with the same content."""
import tempfile

import numpy as np

from vlib.anynet import build, view
from vlib.gen import coin, pick
from vlib.iox import FORMATS, content_diff, hostile, read, write

RULE = "a random network (all classes, hostile text, custom attributes, outputs, series, periods) which was written to and read back from one format; distinct by format, options and features"
ASSUMPTIONS = ["values equal to the documented default may be left out of a file and return as default", "sub-networks and derived per-unit values are not stored (documented)", "text in custom attributes has no number-like values", "boolean network attributes are not supported by netCDF (documented)"]
QUICK, THOROUGH = 280, 8000
REQUIRED = {"netcdf": 60, "hdf5": 60, "csv": 60, "excel": 60, "skip_time": 20, "options": 40, "dataset": 15, "standard": 15, "second": 30, "series": 150, "static_values": 15000}


def cls(d):
    if d and all(x[1] == "nan" and x[2] != "nan" for x in d):
        return "text-nan"
    return d[0][0].split("[")[0].split(" ")[0] if d else ""


def constants(rng, n):
    """Series which equal the default although the static value does not, and static values which equal series."""
    for c, a in (("Generator", "p_max_pu"), ("Link", "efficiency"), ("Generator", "marginal_cost"), ("Load", "p_set"), ("Generator", "p_set"), ("Line", "s_max_pu"), ("Store", "e_max_pu")):
        st = n.static(c)
        if len(st) and coin(rng, 0.3):
            i = str(pick(rng, list(st.index)))
            dflt = n.components[c]["attrs"].at[a, "default"]
            st.loc[i, a] = float(pick(rng, [0.5, 3.25, dflt]))
            n.dynamic(c)[a][i] = float(dflt) if coin(rng, 0.8) else float(st.at[i, a])
            n.dynamic(c)[a].columns.name = c


def case(rng, mon, i, tier):
    fmt = list(FORMATS)[i % 4]
    n = build(rng)
    hostile(rng, n)
    constants(rng, n)
    if coin(rng, 0.2):
        n._objective = float(rng.normal())
        n._objective_constant = 0.25
    standard = not len(set(n.components["LineType"]["standard_types"].index) - set(n.line_types.index)) and coin(rng, 0.2)
    v = view(n)
    mon.count(fmt)
    mon.count("series", sum(len(e) for d in v["dyn"].values() for e in d.values()))
    mon.count("static_values", sum(len(e) for d in v["static"].values() for e in d.values()))
    kw, rk, tol = {}, {}, 1e-12
    if standard:
        kw["export_standard_types"] = True
        mon.count("standard")
    if fmt == "netcdf" and coin(rng, 0.4):
        mon.count("options")
        kw |= dict(float32=True) if coin(rng) else dict(compression=dict(zlib=True, complevel=int(rng.integers(1, 9))))
        if "float32" in kw:
            tol = 2e-7
    if fmt == "csv" and coin(rng, 0.3):
        mon.count("options")
        kw |= dict(encoding="utf-8", quotechar="'") if coin(rng) else dict(encoding="utf-8")
        rk |= {k: kw[k] for k in ("encoding", "quotechar") if k in kw}
    if fmt == "hdf5" and coin(rng, 0.3):
        mon.count("options")
        kw |= dict(complevel=0)
    skip = coin(rng, 0.15)
    if skip:
        rk["skip_time"] = True
        mon.count("skip_time")
    where = f"{fmt}{'-float32' if tol > 1e-9 else ''}"
    ignore = True if standard or coin(rng, 0.7) else False
    with tempfile.TemporaryDirectory() as d:
        if fmt == "netcdf" and coin(rng, 0.35):
            mon.count("dataset")
            with mon.target("dataset"):
                ds = n.export_to_netcdf(**kw)
                m = read(rng, fmt, ds, constructor=False, ignore=ignore, **rk)
            where += "-dataset"
        else:
            with mon.target(f"export-{fmt}"):
                p = write(rng, n, fmt, d, **kw)
            with mon.target(f"import-{fmt}"):
                m = read(rng, fmt, p, ignore=ignore, **rk)
        dd = content_diff(n, v, m, tol=tol, skip_time=skip, standard=standard)
        mon.check(not dd, f"{where}:{cls(dd)}", lambda: dd)
        if "_objective" in n.__dict__ and n._objective is not None:
            mon.check(abs(m._objective - n._objective) < 1e-9, f"{where}:objective", (n._objective, m._objective))
        mon.check(m.has_periods == n.has_periods, f"{where}:multi-invest", (n.has_periods, m.has_periods))
        if coin(rng, 0.3) and not skip:
            # a second round through another format
            other = str(pick(rng, list(FORMATS)))
            mon.count("second")
            with mon.target(f"second-{other}"):
                import os
                os.mkdir(os.path.join(d, "2"))
                q = write(rng, m, other, os.path.join(d, "2"))
                m2 = read(rng, other, q)
            dd = content_diff(n, v, m2, tol=tol, standard=False)
            mon.check(not dd, f"second:{fmt}-{other}:{cls(dd)}", lambda: dd)
    kind = "time" if str(n.snapshots.dtype).startswith("datetime") else "multi" if n.snapshots.nlevels > 1 else "plain"
    mon.sig(fmt, i, tuple(sorted(kw)), skip, kind, tuple(c for c in n.static("Bus").columns if c.startswith("my_")), len(n.shapes) > 0, bool(n.meta))
    mon.sample = dict(format=fmt, options=sorted(kw), snapshots=len(n.snapshots), components={c: len(n.static(c)) for c in ("Bus", "Generator", "Link", "Line", "Shape")})
