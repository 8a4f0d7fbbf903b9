"""P11 security-constrained optimisation."""
import numpy as np
import pandas as pd

from checks.p16 import connected, dense
from vlib.core import Skip
from vlib.gen import SOLVER, Gen, coin, pick
from vlib.lopf import ABS, REL, objective_identity, optimal, verify
from vlib.pfgen import Elec
from vlib.ref import Ref, capture_prior, val

RULE = "a random meshed network optimised with a distinct set of branch outages: every base and post-outage flow of the reported solution and its optimality were judged by a reference model with explicit outage rows"
ASSUMPTIONS = ["outages which split an area are outside the method", "single-period optimisation, no phase shifters (the linear optimisation ignores them)"]
QUICK, THOROUGH = 110, 1300
REQUIRED = {"security_rows": 600, "optimality_compared": 55, "outages": 110}


def outage_rows(ref, el, outages):
    """Append the rows of every outage to the reference problem."""
    n, rows = ref.n, 0
    for comp in el.components():
        ks = [k for k, d in el.br.items() if d["active"] and d["b0"] in comp]
        dc = el.carrier[comp[0]] != "AC"
        for l in [k for k in ks if k in outages]:
            rest = [k for k in ks if k != l]
            M, _, _ = dense(el, comp, rest, dc, comp[0])
            inj = np.zeros(len(comp))
            inj[comp.index(el.br[l]["b0"])] += 1
            inj[comp.index(el.br[l]["b1"])] -= 1
            f = M @ inj
            for k, fac in zip(rest, f):
                c, i = k
                for t in ref.sns:
                    mx = val(n, c, "s_max_pu", i, t)
                    terms = [((c, "s", i, t), 1.0), ((l[0], "s", l[1], t), float(fac))]
                    rows += 1
                    if i in ref.ext[c]:
                        ref.row("security", terms + [((c, "s_nom", i), -mx)], -np.inf, 0)
                        ref.row("security", terms + [((c, "s_nom", i), mx)], 0, np.inf)
                    else:
                        cap = mx * float(n.static(c).at[i, "s_nom"])
                        ref.row("security", terms, -cap, cap)
    return rows


def case(rng, mon, i, tier):
    g = Gen(rng, nAC=(3, 5), parallel=0.7, nDC=0.3, trafo=0.4, inactive=0.4, links=0.3, gas=0.2, storage=0.3, store=0.2, T=(1, 3), hub=0.0, ext=0.5)
    n = g.build()
    el = Elec(n)
    cand = []
    for comp in el.components():
        ks = [k for k, d in el.br.items() if d["active"] and d["b0"] in comp]
        cand += [k for k in ks if connected(comp, el, [x for x in ks if x != k])]
    allb = [k for k in el.br]
    if not cand:
        raise Skip("no branch outside of bridges")
    kw = {}
    out = [cand[j] for j in sorted(rng.permutation(len(cand))[: int(rng.integers(1, len(cand) + 1))])]
    if len(cand) == len(allb) and coin(rng):
        out = cand
    elif all(k[0] == "Line" for k in out) and coin(rng, 0.6):
        names = [k[1] for k in out]
        kw["branch_outages"] = names if coin(rng) else pd.Index(names)
    else:
        kw["branch_outages"] = pd.MultiIndex.from_tuples(out)
    mon.sig(g.signature(), len(out), len(cand))
    mon.sample = dict(features=list(g.signature())[:20], outages=[list(k) for k in out])
    prior = capture_prior(n)
    with mon.target("sclopf"):
        status, cond = n.optimize.optimize_security_constrained(**kw, **SOLVER)
    mon.count("outages", len(out))
    if "limit" in str(cond):
        raise Skip("solver time limit")
    ref = Ref(n, None, prior=prior)
    mon.count("security_rows", outage_rows(ref, el, set(out)))
    xa = None
    if status == "ok":
        xa = verify(mon, n, ref, None)
        objective_identity(mon, n, ref, xa)
    optimal(mon, n, ref, status, cond, xa)
