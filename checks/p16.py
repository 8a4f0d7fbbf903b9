"""P16 sensitivities: PTDF, BODF and contingency flows."""
import numpy as np
import pandas as pd

from checks.p15 import shunted, slack_of
from vlib.core import Skip
from vlib.gen import coin, pick
from vlib.pfgen import Elec, PFGen, injections

RULE = "a random network with AC/DC areas whose PTDF, BODF and outage flows were compared with dense re-solves of the linear power flow with the branch actually removed; distinct by features and sizes"
ASSUMPTIONS = ["outages which split an area have no defined flow and are not judged"]
QUICK, THOROUGH = 170, 2500
REQUIRED = {"ptdf": 150, "bodf_columns": 300, "outages": 200, "monitored_flows": 2000}


def dense(el, comp, ks, dc, slack):
    """H (branches x buses) @ pseudo-inverse with grounded slack, and phase-shift flows."""
    ix = {b: j for j, b in enumerate(comp)}
    K = np.zeros((len(comp), len(ks)))
    b = np.array([1 / (el.br[k]["reff"] if dc else el.br[k]["xeff"]) for k in ks])
    for q, k in enumerate(ks):
        K[ix[el.br[k]["b0"]], q] += 1
        K[ix[el.br[k]["b1"]], q] -= 1
    B = K @ np.diag(b) @ K.T
    s = ix[slack]
    keep = [j for j in range(len(comp)) if j != s]
    if keep and np.linalg.matrix_rank(B[np.ix_(keep, keep)], tol=1e-9 * max(1e-9, np.abs(b).max(initial=0))) < len(keep):
        return None
    inv = np.zeros_like(B)
    if keep:
        inv[np.ix_(keep, keep)] = np.linalg.inv(B[np.ix_(keep, keep)])
    shift = -b * np.array([el.br[k]["phi"] for k in ks])
    return np.diag(b) @ K.T @ inv, K, shift


def flows(M, K, shift, p):
    return M @ (p - K @ shift) + shift


def connected(comp, el, ks):
    seen, todo = {comp[0]}, [comp[0]]
    while todo:
        a = todo.pop()
        for k in ks:
            d = el.br[k]
            for x, y in ((d["b0"], d["b1"]), (d["b1"], d["b0"])):
                if x == a and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == len(comp)


def case(rng, mon, i, tier):
    g = PFGen(rng, nAC=(2, 7), areas=(1, 3), T=(1, 3), inactive=0.3, storage=0.2, store=0.2, wide=0.4 if coin(rng, 0.35) else 0.0)
    n = g.build()
    mon.sig(g.signature())
    mon.sample = dict(features=list(map(str, g.signature())))
    m = n.copy()
    el = Elec(m)
    inj = shunted(m, injections(m))
    comps = el.components()
    t = pick(rng, list(n.snapshots))
    n.determine_network_topology()
    n.calculate_dependent_values()
    base, after = {}, {}
    for comp in comps:
        ks = [k for k, d in el.br.items() if d["active"] and d["b0"] in comp]
        dc = el.carrier[comp[0]] == "DC"
        sg, sb = slack_of(m, comp)
        sub = n.sub_networks.obj[n.buses.at[comp[0], "sub_network"]]
        p = np.array([inj.at[t, b] for b in comp])
        if not ks:
            continue
        with mon.target("BODF"):
            sub.calculate_BODF()
        bo, br = list(sub.buses_o), list(sub.branches_i(active_only=True))
        mon.check(set(bo) == set(comp) and set(br) == set(ks), "sets", f"{bo} {br}")
        if sb is None:
            sb = bo[0]
        mon.check(bo[0] == sb, "slack", f"{bo[0]} want {sb}")
        M, K, shift = dense(el, comp, ks, dc, sb)
        p[comp.index(sb)] -= p.sum()
        rb = [br.index(k) for k in ks]
        cb = [bo.index(b) for b in comp]
        mon.count("ptdf")
        mon.close(np.asarray(sub.PTDF)[np.ix_(rb, cb)], M, "ptdf", 1e-6, 1e-8, lambda: str(comp))
        f0 = flows(M, K, shift, p)
        base.update(zip(ks, f0))
        for q, k in enumerate(ks):
            rest = [x for x in ks if x != k]
            if not connected(comp, el, rest):
                mon.count("bridges")
                continue
            M1, K1, s1 = dense(el, comp, rest, dc, sb)
            f1 = flows(M1, K1, s1, p)
            got = np.asarray(sub.BODF)[rb, br.index(k)]
            mon.count("bodf_columns")
            # distribution factors: flow change per unit of lost flow
            unit = M1 @ (K[:, q])
            want = np.array([-1.0 if x == k else unit[rest.index(x)] for x in ks])
            mon.close(got, want, "bodf", 1e-5, 1e-7, lambda: f"outage {k} in {comp}")
            after[k] = dict(zip(rest, f1)) | {k: 0.0}
    allk = [k for k, d in el.br.items()]
    if not base:
        raise Skip("no active branch")
    kw = {}
    out = list(after)
    mode = int(rng.integers(3))
    if mode == 0 and len(out) == len(allk):
        pass
    elif mode == 1 and out and all(k[0] == "Line" for k in out):
        out = [out[j] for j in rng.permutation(len(out))][: int(rng.integers(1, len(out) + 1))]
        kw["branch_outages"] = [k[1] for k in out]
    else:
        out = [out[j] for j in rng.permutation(len(out))][: int(rng.integers(0, len(out) + 1))]
        kw["branch_outages"] = out
    if t == n.snapshots[0] and coin(rng, 0.5):
        if coin(rng):
            kw["snapshots"] = list(n.snapshots)
    else:
        kw["snapshots"] = t
    with mon.target("contingency"):
        p0 = n.lpf_contingency(**kw)
    for k in base:
        mon.close(p0.at[k, "base"], base[k], "contingency:base", 1e-6, 1e-5, lambda: str(k))
    for k in out:
        mon.count("outages")
        if not mon.check(k in list(p0.columns), "contingency:missing", f"{k} not in {list(p0.columns)}"):
            continue
        col = p0.iloc[:, list(p0.columns).index(k)]
        for x, f in base.items():
            mon.count("monitored_flows")
            want = after[k].get(x, f)
            mon.close(col[x], want, "contingency:flow", 1e-5, 1e-4, lambda: f"flow on {x} after outage of {k}")
