"""Shared LOPF workload + oracle used by several properties."""
from __future__ import annotations

import numpy as np

from vlib.core import Skip, Stop
from vlib.gen import Gen, coin, opt
from vlib.ref import Ref, capture_prior

ABS, REL = 2e-4, 2e-6


def pick_sns(rng, n, multi, p=0.25):
    """Sometimes optimise only a (contiguous or scattered) subset of snapshots."""
    T = len(n.snapshots)
    if multi or T < 2 or not coin(rng, p):
        return None
    k = int(rng.integers(1, T))
    if coin(rng, 0.5):
        a = 0 if coin(rng, 0.5) else int(rng.integers(0, T - k + 1))
        return n.snapshots[a: a + k]
    ix = sorted(rng.choice(T, k, replace=False).tolist())
    return n.snapshots[ix]


def solve(mon, n, sns=None, multi=False, losses=0, linearized=False, **kw):
    args = dict(kw)
    if sns is not None:
        args["snapshots"] = sns
    if multi:
        args["multi_investment_periods"] = True
    if losses:
        args["transmission_losses"] = losses
    if linearized:
        args["linearized_unit_commitment"] = True
    with mon.target("optimize"):
        try:
            status, cond = opt(n, **args)
        except ValueError as e:
            # documented refusal: demand at a bus without any supply
            if "Empty LHS with non-zero RHS" not in str(e):
                raise
            status, cond = "refused", "infeasible"
    mon.count("optimize_calls")
    mon.count(f"status_{cond}")
    if "limit" in str(cond):
        raise Skip("solver time limit")
    return status, cond


def verify(mon, n, ref, tags=None, prefix="", exclude=()):
    """Evaluate every reference row at the reported solution.

    tags: predicate on tag selecting what this property is about.
    """
    x = ref.point()
    xa = ref.fill_angles(x) if ref.kvl else x
    worst = {}
    for tag, viol, scale in ref.residuals(xa):
        if tags is not None and not tags(tag):
            continue
        mon.count("evaluations")
        mon.count("rows:" + tag.split("-")[0])
        tol = ABS + REL * scale * 10
        if not viol <= tol:
            if tag not in worst or viol > worst[tag][0]:
                worst[tag] = (viol, scale)
    for tag, (v, s) in worst.items():
        mon.violate(f"{prefix}row:{tag}", f"constraint of kind '{tag}' broken by {v:.6g} (scale {s:.4g}) in the reported solution")
    return xa


def optimal(mon, n, ref, status, cond, xa=None, prefix="", rtol=1e-5, atol=5e-3):
    """Compare with the independently solved reference problem."""
    if ref.quad:
        if status != "ok" or xa is None:
            mon.count("quad_unsolved")
            return None
        # x is optimal for the convex problem iff it minimises the gradient at x
        g = np.array(ref.obj, dtype=float)
        for j, q in ref.quad.items():
            g[j] += 2 * q * xa[j]
        st, val, _ = ref.solve(g)
        used = g != 0
        cur = float(g[used] @ xa[used])
        if st != 0:
            mon.count("ref_" + str(st))
            return None
        mon.count("optimality_compared")
        mon.check(abs(cur - val) <= 1e-2 + 1e-3 * max(abs(val), abs(cur)), prefix + "optimality:quadratic", f"gradient at solution {cur} reference minimum {val}")
        return None
    st, val, _ = ref.solve()
    if st == 0:
        if status != "ok":
            mon.check(False, prefix + "feasibility", f"pypsa says {status}/{cond} but the reference problem is feasible with optimum {val}")
            return None
        got = float(n.objective) + float(getattr(n, "objective_constant", 0.0) or 0.0)
        mon.count("optimality_compared")
        mon.check(abs(got - val) <= atol + rtol * max(abs(val), abs(got)), prefix + ("optimality:above" if got > val else "optimality:below"),
                  f"objective+constant={got} reference optimum={val} (diff {got - val:.6g})")
        return val
    if st == 2:
        mon.count("infeasible_agree")
        mon.check(status != "ok", prefix + "feasibility", f"reference problem infeasible but pypsa returned {status}/{cond}")
    elif st == 3:
        mon.count("unbounded_ref")
        mon.check(status != "ok", prefix + "feasibility", f"reference problem unbounded but pypsa returned {status}/{cond}")
    else:
        mon.count("ref_undecided")
    return None


def objective_identity(mon, n, ref, xa, prefix=""):
    got = float(n.objective) + float(n.objective_constant)
    want = ref.cost_of(xa)
    mon.check(abs(got - want) <= 5e-3 + 2e-6 * max(abs(got), abs(want)), prefix + "objective-identity",
              f"n.objective + objective_constant = {got}, cost of reported decisions = {want}")
    mon.check(abs(float(n.objective_constant) - ref.const) <= 1e-4 + 1e-9 * abs(ref.const), prefix + "objective-constant",
              f"{n.objective_constant} vs {ref.const}")


def workload(rng, mon, feat, p_subset=0.25, losses=0, linearized=False):
    g = Gen(rng, **feat)
    n = g.build()
    multi = bool(feat.get("multi"))
    sns = pick_sns(rng, n, multi, p_subset)
    mon.sig(g.signature(), None if sns is None else len(sns), losses, linearized)
    mon.sample = dict(features=list(g.signature())[:25], buses=len(n.buses), snapshots=len(n.snapshots), subset=None if sns is None else [str(s) for s in sns])
    prior = capture_prior(n)
    status, cond = solve(mon, n, sns, multi, losses, linearized)
    ref = Ref(n, sns, multi, losses, linearized, prior=prior)
    return n, sns, ref, status, cond, g


def run(rng, mon, feat, tags, p_subset=0.25, losses=0, linearized=False, exact=True, identity=False):
    """One LOPF workload judged by the rows selected with `tags` (and optimality)."""
    n, sns, ref, status, cond, g = workload(rng, mon, feat, p_subset, losses, linearized)
    xa = None
    if status == "ok":
        xa = verify(mon, n, ref, tags)
        if identity:
            objective_identity(mon, n, ref, xa)
    if exact:
        optimal(mon, n, ref, status, cond, xa)
    return n, sns, ref, status, cond, xa


def expect(mon, n, sns):
    """Reported port powers and bus injections, recomputed from the primary decisions."""
    from vlib.ref import link_ports, val

    sns = list(n.snapshots if sns is None else sns)

    def df(c, a):
        return n.dynamic(c)[a]

    for i in n.links.index:
        if i not in df("Link", "p0"):
            continue
        for k in link_ports(n):
            b = n.links.at[i, "bus" + k]
            got = df("Link", "p" + k)[i] if i in df("Link", "p" + k) else None
            for t in sns:
                want = 0.0 if b == "" else -val(n, "Link", "efficiency" + ("" if k == "1" else k), i, t) * df("Link", "p0").at[t, i]
                mon.check(got is not None and abs(got[t] - want) <= 1e-6 * (1 + abs(want)), "report:link-port", f"{i} p{k}@{t}: {None if got is None else got[t]} want {want}")
    for i in n.storage_units.index:
        for t in sns:
            want = df("StorageUnit", "p_dispatch").at[t, i] - df("StorageUnit", "p_store").at[t, i]
            mon.check(abs(df("StorageUnit", "p").at[t, i] - want) <= 1e-6 * (1 + abs(want)), "report:storage-p", f"{i}@{t}")
    for i in n.loads.index:
        for t in sns:
            want = val(n, "Load", "p_set", i, t) * bool(n.loads.at[i, "active"])
            mon.check(abs(df("Load", "p").at[t, i] - want) <= 1e-9 * (1 + abs(want)), "report:load-p", f"{i}@{t}: {df('Load', 'p').at[t, i]} want {want}")
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for i in st.index:
            for t in sns:
                mon.check(abs(df(c, "p0").at[t, i] + df(c, "p1").at[t, i]) <= 1e-6, "report:branch-p1", f"{c} {i}@{t}") if not getattr(n, "_lossy", False) else None
