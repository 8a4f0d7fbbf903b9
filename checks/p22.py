"""P22 exporting replaces what was stored before and changes nothing else."""
import os
import tempfile

import numpy as np

from vlib.anynet import build, diff, view
from vlib.gen import coin, pick
from vlib.iox import FORMATS, content_diff, read, write
from checks.p20 import alter

RULE = "a history of 2-4 exports of changing networks to one target, each read back; the exported network, the target and imported data were compared before and after; distinct by format, edits and features"
ASSUMPTIONS = ["files in the target folder which are not named like component data are left alone"]
QUICK, THOROUGH = 104, 4000
REQUIRED = {"netcdf": 25, "hdf5": 25, "csv": 25, "excel": 25, "exports": 250, "edits": 150, "purity": 250, "foreign": 10, "dataset_isolation": 15, "repeat": 30}


def cls(d):
    return d[0][0].split("[")[0].split(" ")[0] if d else ""


def names(n):
    """Labels of axes, which exports like to rename in passing."""
    out = {"snapshots": list(n.snapshots.names), "w": list(n.snapshot_weightings.index.names), "p": list(n.investment_period_weightings.index.names)}
    for c in n.all_components:
        s = n.static(c)
        out[c] = (s.index.name, s.columns.name, list(s.columns), [str(t) for t in s.dtypes])
        for a, df in n.dynamic(c).items():
            out[c, a] = (list(df.index.names), df.columns.name)
    return out


def edit(rng, n):
    """Some change which leaves less (or other) data behind."""
    op = str(pick(rng, ["class", "class", "series", "component", "meta", "snapshots", "new", "bounds"]))
    if op == "class":
        for c in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link", "GlobalConstraint", "Shape"):
            if coin(rng, 0.4) and len(n.static(c)):
                n.remove(c, list(n.static(c).index))
    elif op == "series":
        for c in n.all_components:
            for a in list(n.dynamic(c)):
                if n.dynamic(c)[a].shape[1] and coin(rng, 0.5):
                    n.dynamic(c)[a] = n.dynamic(c)[a].iloc[:, :0]
    elif op == "component":
        for c in ("Generator", "Load", "Line", "Link", "Store"):
            if len(n.static(c)):
                n.remove(c, str(pick(rng, list(n.static(c).index))))
    elif op == "meta":
        n.meta = {}
        n.name = "renamed"
    elif op == "snapshots" and not n.has_periods:
        n.set_snapshots(n.snapshots[: max(1, len(n.snapshots) // 2)])
    elif op == "bounds":
        for c, a in (("Generator", "p_nom"), ("Line", "s_nom"), ("Link", "p_nom"), ("Store", "e_nom")):
            n.static(c)[a] = 0.0
    else:
        n = build(rng)
    return n, op


def tree(p):
    if os.path.isdir(p):
        return {f: open(os.path.join(p, f), "rb").read() for f in sorted(os.listdir(p)) if f.endswith((".csv", ".json"))}
    return open(p, "rb").read()


def case(rng, mon, i, tier):
    fmt = list(FORMATS)[i % 4]
    n = build(rng)
    mon.count(fmt)
    ops = []
    with tempfile.TemporaryDirectory() as d:
        foreign = fmt == "csv" and coin(rng, 0.6)
        if foreign:
            mon.count("foreign")
            os.makedirs(os.path.join(d, "x", "generators"))
            for f in ("readme.txt", "generators/notes.csv", "costs.csv"):
                open(os.path.join(d, "x", f), "w").write("mine")
        for k in range(int(rng.integers(2, 5))):
            if k:
                n, op = edit(rng, n)
                ops.append(op)
                mon.count("edits")
            v, lab = view(n), names(n)
            with mon.target(f"export-{fmt}"):
                p = write(rng, n, fmt, d)
            mon.count("exports")
            mon.count("purity")
            dd = diff(v, view(n), skip=("names",) if v["names"] in ([None], ["period", None]) else ())
            mon.check(not dd, f"export-changes-network:{fmt}:{cls(dd)}", lambda: dd)
            after = names(n)
            mon.check(lab == after, f"export-changes-labels:{fmt}", lambda: [(x, lab[x], after.get(x)) for x in lab if lab[x] != after.get(x)][:3])
            before = tree(p) if fmt in ("csv", "excel") else None
            with mon.target(f"import-{fmt}"):
                m = read(rng, fmt, p)
            dd = content_diff(n, v, m)
            mon.check(not dd, f"stale:{fmt}:{cls(dd)}" if k else f"first:{fmt}:{cls(dd)}", lambda: (ops, dd))
            if before is not None:
                mon.check(tree(p) == before, f"import-changes-file:{fmt}", "") if fmt == "excel" or not foreign else None
            if coin(rng, 0.3):
                mon.count("repeat")
                with mon.target(f"again-{fmt}"):
                    p = write(rng, n, fmt, d)
                    m2 = read(rng, fmt, p)
                dd = diff(view(m), view(m2))
                mon.check(not dd, f"repeat:{fmt}:{cls(dd)}", lambda: dd)
                if fmt == "csv" and not foreign:
                    mon.check(tree(p) == before, "repeat-bytes:csv", lambda: [f for f in before if before[f] != tree(p).get(f)])
        if foreign:
            for f in ("readme.txt", "generators/notes.csv", "costs.csv"):
                q = os.path.join(d, "x", f)
                mon.check(os.path.exists(q) and open(q).read() == "mine", "foreign-file", f)
    if fmt == "netcdf":
        mon.count("dataset_isolation")
        v = view(n)
        with mon.target("dataset"):
            ds = n.export_to_netcdf()
            ref = ds.copy(deep=True)
            m = read(rng, fmt, ds, constructor=False)
        vm = view(m)
        alter(rng, m)
        mon.check(ds.identical(ref), "dataset-altered-by-import", lambda: [x for x in ds.data_vars if not ds[x].identical(ref[x])][:4])
        dd = diff(v, view(n))
        mon.check(not dd, f"imported-shares-with-source:{cls(dd)}", lambda: dd)
    mon.sig(fmt, tuple(ops), i)
    mon.sample = dict(format=fmt, edits=ops, components={c: len(n.static(c)) for c in ("Bus", "Generator", "Link", "Line")})
