"""P09 shadow prices: marginal prices, global-constraint and bound multipliers."""
import numpy as np

from vlib.core import Skip
from vlib.gen import coin, opt
from vlib.lopf import pick_sns
from vlib.gen import Gen
from vlib.ref import Ref, capture_prior

RULE = "a solved random LP with distinct topology/weightings/limits for which reported shadow prices were tested as subgradients of the independently computed optimal cost"
ASSUMPTIONS = ["any subgradient is accepted where the optimal cost is not differentiable"]
QUICK, THOROUGH = 110, 1200
REQUIRED = {"prices": 500, "mu_gc": 40, "mu_bound": 150, "duality": 60}


def case(rng, mon, i, tier):
    multi = coin(rng, 0.2)
    losses = 2 if coin(rng, 0.1) else 0
    feat = dict(multi=multi, gc=coin(rng, 0.6), ext=0.6, T=(1, 4), hub=0.04, lossy=bool(losses), setpoint=0.1)
    g = Gen(rng, **feat)
    n = g.build()
    sns = pick_sns(rng, n, multi, 0.2)
    mon.sig(g.signature(), losses)
    kw = dict(assign_all_duals=True)
    if sns is not None:
        kw["snapshots"] = sns
    if multi:
        kw["multi_investment_periods"] = True
    if losses:
        kw["transmission_losses"] = losses
    prior = capture_prior(n)
    with mon.target("optimize"):
        status, cond = opt(n, **kw)
    if status != "ok":
        raise Skip("no optimum")
    ref = Ref(n, sns, multi, losses, prior=prior)
    st, base, _ = ref.solve()
    if st != 0:
        raise Skip("reference unsolved")

    def probe(key, mu, what, delta):
        """cost(rhs + delta) >= cost + mu * delta for both signs of delta."""
        for d in (delta, -delta):
            st, v, _ = ref.solve(shift={ref.idx[key]: d})
            if st != 0:
                continue
            mon.check(v >= base + mu * d - 1e-3 - 1e-6 * abs(base) - 1e-5 * abs(mu * d), f"dual:{what}",
                      f"{key}: reported multiplier {mu}; cost {base} -> {v} for a change of {d} (bound {base + mu * d})")

    duality(mon, n, ref, base)
    keys = [k for k in ref.idx if k[0] == "balance"]
    mon.count("prices", len(keys))
    for j in rng.permutation(len(keys))[:8]:
        _, b, t = keys[j]
        probe(keys[j], float(n.buses_t.marginal_price.at[t, b]) * ref.wobj(t), "marginal_price", float(rng.choice([0.01, 1.0, 10.0])))
    for k in [k for k in ref.idx if k[0] == "gc"]:
        mon.count("mu_gc")
        probe(k, float(n.global_constraints.at[k[1], "mu"]), "global-constraint", float(rng.choice([0.1, 5.0])))
    keys = [k for k in ref.idx if k[0] in ("lower", "upper")]
    out = dict(p="", s="", e="")
    got = 0
    for j in rng.permutation(len(keys)):
        side, c, attr, name, t = keys[j]
        if attr not in out or got >= 8:
            continue
        df = n.dynamic(c).get("mu_" + side)
        if df is None or name not in df:
            continue
        got += 1
        mon.count("mu_bound")
        probe(keys[j], float(df.at[t, name]), f"mu_{side}", float(rng.choice([0.01, 1.0])))


def duality(mon, n, ref, base):
    """Prices alone certify dispatch: every non-extendable generator is dispatched
    optimally against the reported prices (no arbitrage)."""
    esum = n.generators.index[np.isfinite(n.generators.e_sum_max) | np.isfinite(n.generators.e_sum_min)]
    gc = any(k[0] == "gc" for k in ref.idx)
    ramp = n.generators.ramp_limit_up.notna() | n.generators.ramp_limit_down.notna()
    from vlib.ref import val

    for i in n.generators.index:
        if n.generators.at[i, "p_nom_extendable"] or i in esum or ramp[i] or (gc and n.generators.at[i, "carrier"] != "shed"):
            continue
        if "p_set" in n.generators_t and i in n.generators_t.p_set:
            continue
        for t in ref.sns:
            if not ref.act("Generator", i, t):
                continue
            w = ref.wobj(t)
            rent = n.buses_t.marginal_price.at[t, n.generators.at[i, "bus"]] * n.generators.at[i, "sign"] - val(n, "Generator", "marginal_cost", i, t)
            p, nom = n.generators_t.p.at[t, i], n.generators.at[i, "p_nom"]
            lo, hi = (val(n, "Generator", a, i, t) * nom for a in ("p_min_pu", "p_max_pu"))
            mon.count("duality")
            if rent > 1e-3:
                mon.check(p >= hi - 1e-3 - 1e-6 * abs(hi), "price:profitable-not-dispatched", f"{i}@{t}: price-cost={rent} but p={p} < {hi} (weight {w})")
            elif rent < -1e-3:
                mon.check(p <= lo + 1e-3 + 1e-6 * abs(lo), "price:lossmaking-dispatched", f"{i}@{t}: price-cost={rent} but p={p} > {lo} (weight {w})")
