"""P08 multi-period investment."""
from vlib.gen import coin
from vlib.lopf import run
from vlib.ref import is_active

RULE = "a random multi-investment problem (periods, vintages, weightings, per-period storage) solved and re-evaluated period by period"
ASSUMPTIONS = ["an asset is active in period y iff active and build_year <= y < build_year + lifetime"]
QUICK, THOROUGH = 110, 1200
REQUIRED = {"optimality_compared": 80, "outside_lifetime": 50}


def case(rng, mon, i, tier):
    feat = dict(multi=True, ext=0.7, T=(2, 6), gc=coin(rng, 0.3), ramp=0.4 if coin(rng, 0.3) else 0.0, inactive=0.3, hub=0.0, committable=0.0)
    n, sns, ref, status, cond, xa = run(rng, mon, feat, None, p_subset=0, identity=True)
    if status != "ok":
        return
    for c, attr in (("Generator", "p"), ("Store", "p"), ("StorageUnit", "p"), ("Link", "p0"), ("Line", "p0"), ("Transformer", "p0")):
        for k in n.static(c).index:
            for t in ref.sns:
                if not is_active(n, c, k, t[0]):
                    mon.count("outside_lifetime")
                    mon.check(abs(n.dynamic(c)[attr].at[t, k]) <= 1e-9, "operates-outside-lifetime", f"{c} {k} at {t}: {n.dynamic(c)[attr].at[t, k]}")
