"""P05 unit commitment and ramping."""
import numpy as np
import pandas as pd

from vlib.gen import Gen, coin
from vlib.lopf import optimal, run, solve, verify
from vlib.ref import Ref, capture_prior

RULE = "a solved random network with committable/ramp-limited generators and links (initial histories, minimum up/down times, start/shut ramps) whose commitment logic was re-evaluated"
ASSUMPTIONS = ["committable assets are generated with static ramp limits only (see finding F-dynramp in DESIGN.md)", "PyPSA couples no ramp at the very first snapshot of n.snapshots (documented)"]
QUICK, THOROUGH = 110, 1200
REQUIRED = {"rows:uc": 1500, "rows:ramp": 300, "optimality_compared": 80, "relaxations": 4, "later_ranges": 15}


def tags(tag):
    return tag.startswith(("uc-", "ramp"))


def later(rng, mon, feat):
    """Optimise a later range of snapshots, after a solved or a made-up history."""
    g = Gen(rng, **dict(feat, T=(4, 9), committable=0.9, ramp=0.4, inactive=0.1, store=0.0, storage=0.0, ext=0.15, setpoint=0.0))
    n = g.build()
    T = len(n.snapshots)
    k = int(rng.integers(1, T))
    made = coin(rng, 0.6)
    mon.sig(g.signature(), k, T, made)
    mon.sample = dict(history=k, snapshots=T, made_up=made)
    for c, p in (("Generator", "p"), ("Link", "p0")):
        st = n.static(c)
        com = list(st.index[st.committable])
        for i in com:
            # some more hostile minimum times
            if coin(rng):
                st.loc[i, "min_down_time"] = int(rng.integers(1, 5))
            if coin(rng):
                st.loc[i, "min_up_time"] = int(rng.integers(0, 5))
        if made and com:
            # long runs of the same state
            hist = {}
            for i in com:
                x, h = int(coin(rng)), []
                for _ in range(k):
                    if coin(rng, 0.3):
                        x = 1 - x
                    h.append(float(x))
                hist[i] = h + [np.nan] * (T - k)
            stt = pd.DataFrame(hist, index=n.snapshots)
            n.dynamic(c)["status"] = stt.reindex(columns=pd.Index(com, name=c))
            pp = n.dynamic(c)[p].reindex(columns=st.index).astype(float)
            pp.loc[:, :] = 0.0
            for i in com:
                lo = float(st.at[i, "p_min_pu"])
                pp[i] = (stt[i] * st.at[i, "p_nom"] * (lo + (0.7 - min(lo, 0.7)) * rng.random())).fillna(0.0)
            n.dynamic(c)[p] = pp
    if not made:
        status, cond = solve(mon, n, n.snapshots[:k])
        if status != "ok":
            return
    sns = n.snapshots[k:]
    prior = capture_prior(n)
    status, cond = solve(mon, n, sns)
    mon.count("later_ranges")
    ref = Ref(n, sns, prior=prior)
    xa = verify(mon, n, ref, tags) if status == "ok" else None
    optimal(mon, n, ref, status, cond, xa)


def case(rng, mon, i, tier):
    feat = dict(committable=0.75, ramp=0.6, T=(2, 7), nAC=(2, 3), gas=0.4, storage=0.2, store=0.2, nDC=0.1, links=0.8, hub=0.0, inactive=0.25,
                weights=0.5, ext=0.3, multiport=0.2)
    if coin(rng, 0.35):
        return later(rng, mon, feat)
    lin = coin(rng, 0.2)
    n, sns, ref, status, cond, xa = run(rng, mon, feat, tags, p_subset=0.25, linearized=False)
    if lin and status == "ok" and sns is None:
        best = float(n.objective) + float(n.objective_constant)
        st2, _ = solve(mon, n, sns, linearized=True)
        if mon.check(st2 == "ok", "linearized:status", f"relaxation of a feasible problem: {st2}"):
            rel = float(n.objective) + float(n.objective_constant)
            mon.count("relaxations")
            mon.check(rel <= best + 5e-3 + 1e-6 * abs(best), "linearized:not-a-relaxation", f"linearized commitment costs {rel}, integer commitment {best}")
