"""P10 rolling-horizon optimisation."""
import numpy as np

from vlib.core import Skip, Stop
from vlib.gen import Gen, SOLVER, coin
from vlib.lopf import optimal, verify
from vlib.ref import Ref, capture_prior

RULE = "a random network optimised with a distinct (horizon, overlap, snapshot range) whose every window was monitored: hand-over state on entry, full constraint set and optimality on exit, final stitched trajectory"
ASSUMPTIONS = ["windows start every horizon-overlap snapshots, as documented", "cyclic storage closes within each window"]
QUICK, THOROUGH = 60, 700
REQUIRED = {"windows": 140, "handover": 60, "uc_histories": 20}
BUDGET = {"quick": 600}


def case(rng, mon, i, tier):
    feat = dict(T=(4, 9), committable=0.6 if coin(rng, 0.5) else 0.0, ramp=0.5 if coin(rng, 0.6) else 0.0, nAC=(1, 3), ext=0.0, nDC=0.1, esum=0.0,
                hub=0.0, setpoint=0.1, hostile_names=0.2, storage=0.7, store=0.7)
    g = Gen(rng, **feat)
    n = g.build()
    T = len(n.snapshots)
    H = int(rng.integers(2, T + 1))
    O = int(rng.integers(0, H))
    O = min(O, 2)
    sub = coin(rng, 0.2)
    sns = n.snapshots[int(rng.integers(0, 2)):] if sub else n.snapshots
    # non-cyclic storage makes hand-over observable
    n.stores["e_cyclic"] = n.stores["e_cyclic"] & (rng.random(len(n.stores)) < 0.3)
    n.storage_units["cyclic_state_of_charge"] = n.storage_units["cyclic_state_of_charge"] & (rng.random(len(n.storage_units)) < 0.3)
    mon.sig(g.signature(), H, O, sub)
    mon.sample = dict(features=list(g.signature())[:20], snapshots=T, horizon=H, overlap=O, subset=sub)
    init0 = {("Store", k): float(n.stores.at[k, "e_initial"]) for k in n.stores.index}
    init0 |= {("StorageUnit", k): float(n.storage_units.at[k, "state_of_charge_initial"]) for k in n.storage_units.index}
    log, pend = [], {}

    def finish():
        """The previous window has been solved and written back: judge it."""
        if not pend:
            return
        w = pend["sns"]
        ok = pend["model"].status == "ok"
        ref = Ref(n, w, prior=pend["prior"], inits=pend["inits"])
        if ok:
            xa = verify(mon, n, ref, None, prefix="window:")
            optimal(mon, n, ref, "ok", "optimal", xa, prefix="window:")
            committed = {(c, a): n.dynamic(c)[a].loc[w].copy() for c, a in (("Generator", "p"), ("Store", "e"), ("StorageUnit", "state_of_charge"), ("Link", "p0"))}
            log.append((list(w), committed))
        else:
            raise Skip("window infeasible")
        pend.clear()

    def enter(n_, w):
        """Called after each window's model is built, before it is solved."""
        finish()
        mon.count("windows")
        k = len(log)
        start = k * (H - O)
        want = list(sns[start: min(len(sns), start + H)])
        mon.check(list(w) == want, "window:range", f"window {k}: optimises {list(w)}, documented {want}")
        inits = {}
        if k == 0:
            inits = dict(init0)
        else:
            before = sns[start - 1]
            for c, a in (("Store", "e"), ("StorageUnit", "state_of_charge")):
                for name in n.static(c).index:
                    # last value committed for that snapshot by an earlier window
                    v = next(float(d[c, a].at[before, name]) for ws, d in reversed(log) if before in ws)
                    inits[c, name] = v
                    mon.count("handover")
        mon.count("uc_histories", int(n.generators.committable.sum()) if k else 0)
        pend.update(sns=list(w), model=n.model, prior=capture_prior(n), inits=inits)

    kw = dict(SOLVER)
    kw["extra_functionality"] = enter
    if sub or coin(rng, 0.3):
        kw["snapshots"] = sns
    with mon.target("rolling_horizon"):
        n.optimize.optimize_with_rolling_horizon(horizon=H, overlap=O, **kw)
    finish()
    nwin = len(range(0, len(sns), H - O))
    mon.check(len(log) == nwin, "window:count", f"{len(log)} windows observed, documented {nwin}")
    # every snapshot keeps the decision of the last window which covered it
    for t in sns:
        ws, d = next((ws, d) for ws, d in reversed(log) if t in ws)
        for (c, a), df in d.items():
            if not df.empty:
                mon.close(n.dynamic(c)[a].loc[t, df.columns], df.loc[t], f"stitched:{c}.{a}", 1e-9, 1e-9, lambda: f"at {t}")
