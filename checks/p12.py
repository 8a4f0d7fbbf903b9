"""P12 modelling to generate alternatives."""
import numpy as np
import pandas as pd

from vlib.core import Skip
from vlib.gen import Gen, R, coin, opt, pick
from vlib.lopf import optimal, pick_sns, solve, verify
from vlib.ref import NOM, Ref, capture_prior, is_active

RULE = "a random cost-optimal network re-optimised for a distinct alternative objective (components, variables, weight forms, sense, slack) and compared with the reference problem extended by the cost budget"
ASSUMPTIONS = ["inactive assets have no capital cost (whether they count as system cost is undocumented)", "optimal system cost is positive"]
QUICK, THOROUGH = 85, 1200
REQUIRED = {"mga_compared": 50, "budget": 50, "meta": 50}

OPER = dict(Generator=["p"], Link=["p"], StorageUnit=["p_dispatch", "p_store", "state_of_charge"], Store=["e"], Line=["s"])


def weights_for(rng, n, sns):
    """Random weights: (dict handed to pypsa, {ref key: coefficient})."""
    if coin(rng, 0.12):
        w = None
        ext = n.generators.index[n.generators.p_nom_extendable]
        if len(ext):
            return w, {("Generator", "p_nom", i): 1.0 for i in ext}, ["default"]
    w, coef, forms = {}, {}, []
    cand = []
    for c, a in NOM.items():
        ext = n.static(c).index[n.static(c)[a + "_extendable"]]
        if len(ext):
            cand.append((c, a, True))
        if len(n.static(c)) and c in OPER:
            cand += [(c, o, False) for o in OPER[c]]
    for k in rng.permutation(len(cand))[: int(rng.integers(1, 4))]:
        c, a, nom = cand[k]
        idx = list(n.static(c).index)
        tgt = [i for i in idx if n.static(c).at[i, NOM[c] + "_extendable"]] if nom else idx
        form = pick(rng, ["scalar", "dict", "partial", "series"] + ([] if nom else ["frame", "partframe"]))
        keys = idx if not form.startswith("part") else [i for i in idx if coin(rng, 0.6)] or idx[:1]
        if form.startswith("part") and nom and not set(keys) & set(tgt):
            keys = tgt
        if form == "scalar":
            v = R(rng, 0.5, 3, 0.5)
            val, get = v, lambda i, t: v
        elif form in ("dict", "partial", "series"):
            d = {i: R(rng, -2, 3, 0.5) for i in keys}
            val, get = (pd.Series(d) if form == "series" else dict(d)), lambda i, t, d=d: d.get(i, 0.0)
            if coin(rng):  # order must not matter
                val = dict(reversed(list(d.items()))) if form != "series" else val[::-1]
        else:
            df = pd.DataFrame({i: [R(rng, -2, 3, 0.5) for _ in sns] for i in keys}, index=pd.Index(sns, name="snapshot") if not isinstance(sns[0], tuple) else n.snapshots)
            val, get = df, lambda i, t, df=df: float(df.at[t, i]) if i in df else 0.0
        w.setdefault(c, {})[a] = val
        forms.append((c, a, form))
        for i in tgt:
            if nom:
                coef[c, a, i] = coef.get((c, a, i), 0.0) + get(i, None)
            else:
                for t in sns:
                    coef[c, a, i, t] = coef.get((c, a, i, t), 0.0) + get(i, t)
    return w, coef, forms


def case(rng, mon, i, tier):
    multi = coin(rng, 0.15)
    feat = dict(T=(1, 4), sink=False, ext=0.7, inactive=0.0, multi=multi, hub=0.0, negcost=0.0, nAC=(2, 4), setpoint=0.1,
                committable=0.4 if not multi and coin(rng, 0.2) else 0.0, gc=coin(rng, 0.15), dates=0.5)
    g = Gen(rng, **feat)
    n = g.build()
    # capital costs of existing, non-extendable assets are part of system cost
    for c, a in NOM.items():
        st = n.static(c)
        for k in st.index:
            if not st.at[k, a + "_extendable"] and coin(rng, 0.25):
                st.loc[k, "capital_cost"] = R(rng, 1, 20, 0.5)
                g.sig.append("fixedcost")
    sns = pick_sns(rng, n, multi, 0.2)
    prior = capture_prior(n)
    status, cond = solve(mon, n, sns, multi)
    if status != "ok":
        raise Skip("no optimum")
    ref = Ref(n, sns, multi, prior=prior)
    st, base, _ = ref.solve()
    if st != 0 or base < 1:
        raise Skip("no reference optimum or no cost")
    if abs(n.objective + n.objective_constant - base) > 1e-3 + 1e-5 * base:
        raise Skip("base optimum differs (other properties)")
    periods = ref.periods
    fixed = 0.0
    for c, a in NOM.items():
        s = n.static(c)
        for k in s.index:
            if not s.at[k, a + "_extendable"]:
                f = sum((float(n.investment_period_weightings.at[p, "objective"]) if multi else 1.0) for p in periods if is_active(n, c, k, p))
                fixed += f * float(s.at[k, "capital_cost"]) * float(s.at[k, a])
    slack = pick(rng, [0.0, 0.01, 0.05, 0.2, 0.5])
    w, coef, forms = weights_for(rng, n, ref.sns)
    sense = pick(rng, ["min", "max", "min", "max", 1, -1, "minimize", "maximise"])
    sg = 1.0 if sense in (1, "min", "minimize") else -1.0
    kw = {}
    if w is not None or coin(rng):
        kw["weights"] = w
    if sns is not None:
        kw["snapshots"] = sns
    if multi:
        kw["multi_investment_periods"] = True
    mon.sig(g.signature(), forms, str(sense), slack)
    mon.sample = dict(forms=[list(map(str, f)) if isinstance(f, tuple) else f for f in forms], sense=str(sense), slack=slack)
    with mon.target("optimize_mga"):
        status, cond = n.optimize.optimize_mga(sense=sense, slack=slack, log_to_console=False, time_limit=30.0, **kw)
    if "limit" in str(cond):
        raise Skip("solver time limit")
    budget = (1 + slack) * (base + fixed)
    tol = 1e-5 * abs(budget) + 2e-3
    # two budgets bracket solver and rounding tolerance
    obj = [0.0] * len(ref.lb)
    for k, v in coef.items():
        if k in ref.v:
            obj[ref.v[k]] += v * sg
    row = {j: c for j, c in enumerate(ref.obj) if c}
    vals = []
    for b in (budget + tol, budget - tol):
        ref.rows.append(("budget", row, -np.inf, b - fixed))
        vals.append(ref.solve(obj))
        ref.rows.pop()
    if status != "ok":
        mon.check(vals[1][0] != 0, "mga:feasibility", f"{status}/{cond} but reference alternative exists: {vals}")
        return
    xa = verify(mon, n, ref, prefix="mga:")
    mon.count("budget")
    cost = float(np.dot(ref.obj, xa)) + fixed
    mon.check(cost <= budget + 2 * tol, "mga:budget", f"cost of reported alternative {cost} exceeds budget {budget} (optimum {base + fixed}, slack {slack})")
    got = float(np.dot(obj, xa))
    if vals[0][0] == 0:
        mon.count("mga_compared")
        mon.check(got >= vals[0][1] - 1e-3 - 1e-5 * abs(got), "mga:objective:below", f"{got} < {vals[0][1]} {forms} {sense} slack {slack}")
        if vals[1][0] == 0:
            mon.check(got <= vals[1][1] + 5e-3 + 1e-4 * abs(vals[1][1]), "mga:objective:above", f"{got} > {vals[1][1]} {forms} {sense} slack {slack}")
    mon.count("meta")
    mon.check(n.meta.get("slack") == slack and n.meta.get("sense") == sg and "weights" in n.meta, "mga:meta", f"{n.meta}")


def directed():
    def unsolved(mon):
        import pypsa

        n = pypsa.Network()
        n.add("Bus", "b")
        n.add("Generator", "g", bus="b", p_nom_extendable=True, capital_cost=1)
        mon.count("executions")
        try:
            n.optimize.optimize_mga()
            ok = False
        except ValueError:
            ok = True
        mon.check(ok, "mga:unsolved", "running MGA before optimisation is not refused")
        n.add("Load", "l", bus="b", p_set=5)
        opt(n)
        try:
            n.optimize.optimize_mga(sense="up")
            ok = False
        except ValueError:
            ok = True
        mon.check(ok, "mga:bad-sense", "unknown sense is not refused")

    return [("refusals", unsolved)]
