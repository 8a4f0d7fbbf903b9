From bb96d3d6be6441344f55a03fa56156c8d7f4ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 01/91] fix: count active branches of all classes in
 adjacency_matrix

---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From a54f4ef95af163b5452889fd9f2bd215e1d5b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 02/91] fix: ignore inactive branches when finding the cycles
 of a sub-network

---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From d1614e9a6203151ec56221446f3066ee93ebb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 03/91] fix: allow spill costs without any positive inflow

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..3c166f2 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -131,7 +131,8 @@ def define_objective(n: Network, sns: pd.Index) -> None:
                 .loc[:, lambda ds: (ds != 0).any()]
                 .mul(weighting, axis=0)
             )
-            if cost.empty:
+            if cost.empty or f"{c}-{attr}" not in m.variables:
+                # spillage variables only exist if there is any positive inflow
                 continue
             operation = m[f"{c}-{attr}"].sel({"snapshot": sns, c: cost.columns})
             objective.append((operation * cost).sum())
-- 
2.43.0


From 2f3798b1b4c6a3fc114daf5b4b6a6e2ddf94dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 04/91] fix: post-process networks without any sub-network

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 3c166f2..d2479f0 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -516,7 +516,7 @@ def post_processing(n: Network) -> None:
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
-    if "obj" in n.sub_networks:
+    if "obj" in n.sub_networks and not n.sub_networks.empty:
         n.buses_t.v_ang = pd.concat(
             [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
         ).reindex(columns=n.buses.index, fill_value=0.0)
-- 
2.43.0


From df59ff3b074bebd30c10181415af5a6bfae43cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 05/91] fix: add losses of all passive branches to the
 optimised snapshots only

---
 pypsa/optimization/optimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d2479f0..1973862 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -471,10 +471,13 @@ def post_processing(n: Network) -> None:
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
     # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    for c in n.passive_branch_components:
+        if f"{c}-loss" not in n.model.variables:
+            continue
+        losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+        dynamic = n.dynamic(c)
+        for attr in ["p0", "p1"]:
+            dynamic[attr].loc[losses.index, losses.columns] += losses / 2
 
     # recalculate injection
     ca = [
-- 
2.43.0


From 5bd3eff3fe5371ac71d03e0452c853ff8fcfdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 06/91] fix: respect strict unknown_carriers in
 consistency_check

---
 pypsa/consistency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..0c6093f 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -855,7 +855,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From e1d2483e7b5beeba8619d8304624656b76441b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 07/91] fix: keep zeros in statistics for drop_zero=False

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..5e34508 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -257,7 +257,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From e60f7e95b88e8a861668756ef3383e9d9fb374b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 08/91] fix: restore the original value of options set twice in
 option_context

---
 pypsa/_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..031ba9e 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,7 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            original_values.setdefault(option_name, options.get_option(option_name))
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From be18a2d59c12b2214660e5416a9b22263536b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 09/91] fix: replace removed Series.append in
 get_switchable_as_iter

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..67262d5 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From badc59923e49fda0d8ead98f1ad06f2c4e24d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 10/91] fix: keep the commitment of running units without
 minimum up time across windows

---
 pypsa/optimization/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..92f6a6f 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -183,7 +183,7 @@ def define_operational_constraints_for_committables(
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
+        initially_up = up_time_before.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
-- 
2.43.0


From 7239b7858b3eddb224aa0478e1f5244f03cd84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 11/91] fix: apply tech_capacity_expansion_limit without
 investment period

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..a907640 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
-- 
2.43.0


From aaa6b8ba0560550c398558c25fcfe35e187c9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 12/91] fix: align buses of different components in
 tech_capacity_expansion_limit

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a907640..cc8d2bc 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -77,7 +77,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         if not lhs_per_bus_list:
             continue
 
-        lhs_per_bus = merge(lhs_per_bus_list)
+        lhs_per_bus = merge(lhs_per_bus_list, join="outer")
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-- 
2.43.0


From daa25373f2840669f430566b40d1d668759cfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 13/91] fix: count growth of assets in the period they are
 built only

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index cc8d2bc..b8dc39c 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -218,7 +218,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray(active & (active.cumsum() == 1))
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
-- 
2.43.0


From 1363532e993db2ed6fdd33436fcc5c3741fca898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 14/91] fix: align carriers of different components in the
 growth limit

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index b8dc39c..a8181f5 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -232,7 +232,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
     if not lhs_list:
         return
 
-    lhs = merge(lhs_list)
+    lhs = merge(lhs_list, join="outer")
     rhs = max_absolute_growth.reindex_like(lhs.data)
 
     m.add_constraints(lhs, "<=", rhs, name="Carrier-growth_limit")
-- 
2.43.0


From 86b99c60f40254e25f679f450f0d44ebab02a3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 15/91] fix: inactive loads do not consume in the optimisation
 results

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 1973862..82ecbc0 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -468,7 +468,8 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        p_set = get_as_dense(n, "Load", "p_set", sns)
+        set_from_frame(n, "Load", "p", p_set * n.get_active_assets("Load"))
 
     # line losses
     for c in n.passive_branch_components:
-- 
2.43.0


From 9dc0745a131ee6491388ad1873bb4e357da82018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 16/91] fix: allow copying networks with an attached solver
 instance

---
 pypsa/networks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..086e076 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1510,7 +1510,10 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            return copy.deepcopy(self)
+            # Solver instances attached to a solved model can not be copied
+            solver_model = getattr(getattr(self, "model", None), "solver_model", None)
+            memo = {} if solver_model is None else {id(solver_model): None}
+            return copy.deepcopy(self, memo)
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
-- 
2.43.0


From 9ed99a6a6897e18d4ce9b898cd571045b875eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 17/91] fix: linear power flow of sub-networks with only
 inactive branches of a class

---
 pypsa/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..e73513a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1514,6 +1514,9 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if c.name not in flows:
+                # all branches of this class are inactive
+                continue
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
-- 
2.43.0


From 23491d8b5a0427fd63131965d4a001f1a76cbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 18/91] fix: tolerate solver inaccuracies in the commitment of
 previous windows

---
 pypsa/optimization/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 92f6a6f..8a8ee19 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -179,7 +179,9 @@ def define_operational_constraints_for_committables(
     if sns[0] != n.snapshots[0]:
         start_i = n.snapshots.get_loc(sns[0])
         # get generators which are online until the first regarded snapshot
-        until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
+        # (solvers return integers only within their tolerance)
+        status_before = n.dynamic(c).status.iloc[:start_i].round(5)
+        until_start_up = status_before[::-1].reindex(columns=com_i)
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-- 
2.43.0


From a81cc7d107d42818b6b03392d38c41bba7185577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 19/91] fix: choose slack and PV generators among active
 generators only

---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index e73513a..ecc1295 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1030,7 +1030,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     """
     Find the slack bus in a connected sub-network.
     """
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1079,7 +1079,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
 
     find_slack_bus(sub_network)
 
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
-- 
2.43.0


From 1698d5989ac73ea4571e4011e100576625671fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 20/91] fix: inactive links transfer no power in the power flow

---
 pypsa/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecc1295..b4d0783 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -151,6 +151,7 @@ def _network_prepare_and_run_pf(
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set.loc[:, ~n.links.active.astype(bool)] = 0.0
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
-- 
2.43.0


From 07bbb3265262e2883ba314ba8538b8226fa5e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 21/91] fix: consider the sign of slack and PV generators in
 the power flow

---
 pypsa/pf.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index b4d0783..75470cf 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -409,10 +409,12 @@ def sub_network_pf_singlebus(
     else:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
     n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
         n.buses_t.q.loc[sns, sub_network.slack_bus]
+        / n.generators.at[sub_network.slack_generator, "sign"]
     )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
@@ -806,17 +808,18 @@ def sub_network_pf(
     else:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
-        )
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
     # set the Q of the slack and PV generators
     n.generators_t.q.loc[sns, sub_network.slack_generator] += (
         n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    ) / n.generators.at[sub_network.slack_generator, "sign"]
 
-    n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
+    pv_generators = n.buses.loc[sub_network.pvs, "generator"]
+    n.generators_t.q.loc[sns, pv_generators] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
         - ss[:, buses_indexer(sub_network.pvs)].imag
-    )
+    ) / n.generators.sign.loc[pv_generators].values
 
     return iters, diffs, convs
 
@@ -1539,7 +1542,7 @@ def sub_network_lpf(
     # let slack generator take up the slack
     if sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
-            slack_adjustment
+            slack_adjustment / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
 
-- 
2.43.0


From 9c40a3ec70f4239a3e8b3d792f5959a87b416ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 22/91] fix: power flow of sub-networks without generators

---
 pypsa/pf.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 75470cf..20cb4a5 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -406,16 +406,17 @@ def sub_network_pf_singlebus(
                     -n.buses_t.p.loc[sns, bus], axis=0
                 )
             )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
             / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-        / n.generators.at[sub_network.slack_generator, "sign"]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
@@ -805,15 +806,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         ) / n.generators.at[sub_network.slack_generator, "sign"]
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    ) / n.generators.at[sub_network.slack_generator, "sign"]
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
     pv_generators = n.buses.loc[sub_network.pvs, "generator"]
     n.generators_t.q.loc[sns, pv_generators] += np.asarray(
-- 
2.43.0


From 1d83da053b00fd91d85a08234a787b4cbeb6f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 23/91] fix: accept generator slack weights without index name
 and for single buses

---
 pypsa/pf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 20cb4a5..f32c77a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -372,14 +372,17 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, str) and slack_weights in [
+                "p_nom",
+                "p_nom_opt",
+            ]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
                 bus_generator_shares = (
                     n.generators[slack_weights].loc[group.index].pipe(normed).fillna(0)
                 )
-            elif slack_weights == "p_set":
+            elif isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 if generators_t_p_choice.isna().all().all():
                     msg = (
@@ -649,7 +652,7 @@ def sub_network_pf(
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
                 slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
-- 
2.43.0


From aba0a4ec5d92cb67cda81d1f68d8f8a826333508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 24/91] fix: ignore inactive shunt impedances in the admittance
 matrix

---
 pypsa/pf.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index f32c77a..7b729a1 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1262,16 +1262,9 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
-    b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
-        .sum()
-        .reindex(buses_o, fill_value=0.0)
-    )
-    g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
-        .sum()
-        .reindex(buses_o, fill_value=0.0)
-    )
+    shunts = n.shunt_impedances.query("active")
+    b_sh = shunts.b_pu.groupby(shunts.bus).sum().reindex(buses_o, fill_value=0.0)
+    g_sh = shunts.g_pu.groupby(shunts.bus).sum().reindex(buses_o, fill_value=0.0)
     Y_sh = g_sh + 1.0j * b_sh
 
     # get bus indices
-- 
2.43.0


From 1dae31e2d406e41c2d3bf2a1fef2762ddbc60aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:41 +0000
Subject: [PATCH 25/91] fix: power flow of sub-networks with only inactive
 branches of a class

---
 pypsa/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 7b729a1..1a8f1ad 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -741,6 +741,9 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if c.name not in s0:
+            # all branches of this class are inactive
+            continue
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
-- 
2.43.0


From f3c5af18a00385c0a7fffbd14d0471f97a2c4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 26/91] fix: distribute slack of single buses with static
 weights

---
 pypsa/pf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 1a8f1ad..124cf79 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -403,7 +403,14 @@ def sub_network_pf_singlebus(
                     .fillna(0)
                 )
             else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
+                bus_generator_shares = (
+                    slack_weights.reindex(group.index).pipe(normed).fillna(0)
+                )
+            if isinstance(bus_generator_shares, pd.Series):
+                # same shares for all snapshots
+                bus_generator_shares = pd.DataFrame(
+                    [bus_generator_shares] * len(sns), index=sns
+                )
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
-- 
2.43.0


From 99a741f40a465e498fa92d0f23b004809d64f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 27/91] fix: share the slack of a bus among its generators
 according to the chosen weights

---
 pypsa/pf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 124cf79..7f73666 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -809,10 +809,11 @@ def sub_network_pf(
                         slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
+                    attr = slack_weights if isinstance(slack_weights, str) else "p_nom"
+                    bus_generators_p_nom = n.generators[attr].loc[group.index]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    if (bus_generators_p_nom == 0).all():
+                        bus_generators_p_nom = pd.Series(1.0, group.index)
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From 80b813e41074201f6b52e2d55ce50f59d298389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 28/91] fix: inactive generators do not take part in the
 distributed slack

---
 pypsa/pf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 7f73666..4c8915f 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -371,7 +371,9 @@ def sub_network_pf_singlebus(
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in (
+            sub_network.generators().query("active").groupby("bus")
+        ):
             if isinstance(slack_weights, str) and slack_weights in [
                 "p_nom",
                 "p_nom_opt",
@@ -628,7 +630,9 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, n.generators.query("active").index
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -648,7 +652,8 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                n.generators.query("active")
+                .groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -790,7 +795,9 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in (
+            sub_network.generators().query("active").groupby("bus")
+        ):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
-- 
2.43.0


From 2f15bd6b7a22ea199c084111528e9cbbc800fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 29/91] fix: allow generator slack weights for some generators
 of a sub-network only

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 4c8915f..851bd4b 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -813,7 +813,7 @@ def sub_network_pf(
             else:
                 if generator_slack_weights_b:
                     bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
+                        slack_weights.reindex(group.index).pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
                     attr = slack_weights if isinstance(slack_weights, str) else "p_nom"
-- 
2.43.0


From 45997c0feccdacc4b73eff003cd4d2cc38cc6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 30/91] fix: accept snapshot indexes and strings in
 lpf_contingency

---
 pypsa/contingency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..9b57ada 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -92,7 +92,9 @@ def network_lpf_contingency(
     if snapshots is None:
         snapshots = n.snapshots
 
-    if isinstance(snapshots, Sequence):
+    if isinstance(snapshots, (Sequence, pd.Index)) and not isinstance(
+        snapshots, (str, tuple)
+    ):
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-- 
2.43.0


From da9bf3fd47440b0b8b9eef152b436bad35310445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 31/91] fix: keep the flows of other sub-networks in
 lpf_contingency

---
 pypsa/contingency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 9b57ada..b51e1a3 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -130,7 +130,7 @@ def network_lpf_contingency(
         branch_i = sub_network._branches.index.get_loc(branch)
         p0_new = p0_base + pd.Series(
             sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
-        )
+        ).reindex(p0_base.index, fill_value=0.0)
         p0_new.name = branch
 
         p0 = pd.concat([p0, p0_new], axis=1)
-- 
2.43.0


From c0a700f4750091c1971ba37e180afa3f77f67c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 32/91] fix: consider active branches only in lpf_contingency

---
 pypsa/contingency.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index b51e1a3..206099f 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -106,7 +106,7 @@ def network_lpf_contingency(
 
     # Store the flows from the base case
 
-    passive_branches = n.passive_branches()
+    passive_branches = n.passive_branches().query("active")
 
     if branch_outages is None:
         branch_outages = passive_branches.index
@@ -117,7 +117,9 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
+        sub_network._branches = sub_network.branches().query("active")
+        if sub_network._branches.empty:
+            continue
         sub_network.calculate_BODF()
 
     for branch in branch_outages:
-- 
2.43.0


From 2298f8034c5ddf4aa437124f3e3ba8813d3ce210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:58 +0000
Subject: [PATCH 33/91] fix: consider active branches only in the
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..52e7477 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -416,7 +416,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 25692aeff10f9de95d27cf3c3b9b918ecba79001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 34/91] fix: accept a multiindex of branch outages as
 documented

---
 pypsa/optimization/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 52e7477..23333d4 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -393,7 +393,9 @@ def optimize_security_constrained(
 
     if branch_outages is None:
         branch_outages = all_passive_branches
-    elif isinstance(branch_outages, (list | pd.Index)):
+    elif isinstance(branch_outages, (list | pd.Index)) and not isinstance(
+        branch_outages, pd.MultiIndex
+    ):
         branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
-- 
2.43.0


From 7abe455ee27fcc70df502209dd44c173c548b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 35/91] fix: skip empty security constraints

---
 pypsa/optimization/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 23333d4..a4350f4 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -448,6 +448,8 @@ def optimize_security_constrained(
                 con = m.constraints[constraint]  # use this as a template
                 # idx now contains fixed/extendable for the sub-network
                 idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
+                if idx.empty:
+                    continue
                 sel = {coord: idx}
                 lhs = con.lhs.sel(sel) + added_flow.sel(sel)
                 name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-- 
2.43.0


From fa764d4371250c365ab8202a9a9319b9d6b6ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:35 +0000
Subject: [PATCH 36/91] fix: set default efficiencies of additional link ports

---
 pypsa/descriptors.py | 2 +-
 pypsa/io.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 67262d5..dfc95c6 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -456,7 +456,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
 
diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..861098d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From f3fe8c88ee1f62f8e729923f42b3f9e48b6c94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 37/91] fix: storage without activity does not count in energy
 limits

---
 pypsa/optimization/global_constraints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a8181f5..a0677b0 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -15,8 +15,8 @@ from linopy.expressions import merge
 from numpy import isnan
 from xarray import DataArray
 
+from pypsa.descriptors import get_activity_mask, nominal_attrs
 from pypsa.descriptors import get_switchable_as_dense as get_as_dense
-from pypsa.descriptors import nominal_attrs
 
 if TYPE_CHECKING:
     from pypsa import Network
@@ -291,6 +291,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
         # storage units
         cond = "carrier in @emissions.index and not cyclic_state_of_charge"
         sus = n.storage_units.query(cond)
+        sus = sus[get_activity_mask(n, "StorageUnit", sns[sns_sel], sus.index).any()]
         if not sus.empty:
             em_pu = sus.carrier.map(emissions)
             sus_i = sus.index
@@ -301,6 +302,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier in @emissions.index and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", sns[sns_sel], stores.index).any()]
         if not stores.empty:
             em_pu = stores.carrier.map(emissions)
             e = m["Store-e"].loc[sns[sns_sel], stores.index]
@@ -361,6 +363,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             lhs.append(expr)
 
         sus = n.storage_units.query(cond)
+        sus = sus[get_activity_mask(n, "StorageUnit", snapshots, sus.index).any()]
         if not sus.empty:
             sus_i = sus.index
             soc = m["StorageUnit-state_of_charge"].loc[snapshots, sus_i]
@@ -370,6 +373,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier == @glc.carrier_attribute and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", snapshots, stores.index).any()]
         if not stores.empty:
             e = m["Store-e"].loc[snapshots, stores.index]
             e = e.ffill("snapshot").isel(snapshot=-1)
-- 
2.43.0


From 50f865101f7ac03b79f0653660d15e0225fb8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 38/91] fix: accept weights per asset for operational variables
 in optimize_mga

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index a4350f4..741897c 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -629,7 +629,7 @@ def optimize_mga(
                 coeffs = coeffs.reindex(n.get_extendable_i(c))
                 coeffs.index.name = ""
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index)
             elif isinstance(coeffs, pd.DataFrame):
                 coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
             objective.append(m[f"{c}-{attr}"] * coeffs * sense)
-- 
2.43.0


From fe120f104797c9f5b974884dcd5e633c7dee9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 39/91] fix: weight operational expenditure as in the objective
 function

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5e34508..e0358ae 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            # costs are weighted as in the objective function
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
-- 
2.43.0


From 235b9af01408efaf966913c25b2c1f6e3d5536ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 40/91] fix: count each term of the alternative MGA objective
 once

---
 pypsa/optimization/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 741897c..7690c22 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -632,7 +632,8 @@ def optimize_mga(
                 coeffs = coeffs.reindex(n.static(c).index)
             elif isinstance(coeffs, pd.DataFrame):
                 coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+            # sum before merging, as the dimensions of the terms may differ
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0


From 0c1655768953228f4dafb26001e3fedcf5520db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 41/91] fix: include links in operational expenditure

---
 pypsa/statistics/expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index e0358ae..fea9ff6 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1157,6 +1157,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             ]:
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
+                    if c in n.branch_components and attr == "p":
+                        attr = "p0"
                     cost = n.get_switchable_as_dense(c, cost_type)
                     p = n.dynamic(c)[attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
-- 
2.43.0


From e979c31a0541c083d87ecd800e0c2f392635dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 42/91] fix: rename components other than buses and their
 references

---
 pypsa/components/abstract.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..88931ba 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -723,9 +723,14 @@ class Components(ComponentsData, ABC):
         # Rename cross references in network (if attached to one)
         if self.attached:
             for c in self.n_save.components.values():
-                col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
-                if cols and not c.static.empty:
+                # TODO: Generalize
+                if self.name == f"{c.name}Type":
+                    cols = ["type"]
+                else:
+                    col_name = self.name.lower()
+                    cols = [f"{col_name}{port}" for port in {"", *c.ports}]
+                cols = c.static.columns.intersection(cols)
+                if len(cols) and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
 
-- 
2.43.0


From 4a6ec899fdc427a4d50b45bfd8fe62a8f86aeeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 43/91] fix: ignore time series of existing components when
 adding without overwrite

---
 pypsa/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 086e076..66eb5e4 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1340,10 +1340,13 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = names.intersection(self.static(c.name).index)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            if not overwrite:
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From bc328e5e4064f29de94ccca3cdf1f3be0075bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 44/91] fix: keep custom time series of other components when
 adding components

---
 pypsa/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 861098d..046761d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1561,8 +1561,11 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+        if attr in dynamic:
+            # keep the data of other components
+            others = dynamic[attr].drop(columns=df.columns, errors="ignore")
+            df = pd.concat([others, df], axis=1)
+        dynamic[attr] = df
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 8d0195b5c5652893b323f1d95154d7fdea63d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 45/91] fix: drop time series of overwritten components

---
 pypsa/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 046761d..7e4cdfd 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1482,6 +1482,11 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            # time series of overwritten components do not apply any more
+            for k, v in n.dynamic(cls_name).items():
+                n.dynamic(cls_name)[k] = v.drop(
+                    columns=duplicated_components, errors="ignore"
+                )
 
     # Concatenate to new dataframe
     if not old_static.empty:
-- 
2.43.0


From 7281acda1b6adca73214971aa664ea24d1040a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 46/91] fix: do not alter the link attributes of other networks

---
 pypsa/descriptors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index dfc95c6..5197b5e 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import logging
 from collections import OrderedDict
 from collections.abc import Collection, Iterable, Sequence
+from dataclasses import replace
 from itertools import product, repeat
 from typing import TYPE_CHECKING, Any
 
@@ -438,6 +439,11 @@ def update_linkports_component_attrs(
     ports.sort(reverse=True)
     c = "Link"
 
+    # component types are shared among networks, only alter an own copy
+    if any(f"bus{i}" not in n.components[c]["attrs"].index for i in ports):
+        ctype = n.components[c].ctype
+        n.components[c].ctype = replace(ctype, defaults=ctype.defaults.copy())
+
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
         if target in n.components[c]["attrs"].index:
-- 
2.43.0


From 43c7df79a76ab6512207ff0aef737a9260589e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 47/91] fix: refuse dictionaries as attribute values as
 announced

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 66eb5e4..badfc39 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1270,6 +1270,13 @@ class Network:
                 if not v.columns.equals(names):
                     raise ValueError(msg.format(f"DataFrame {k}", names_str))
 
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # Convert list-like and 1-dim array to pandas.Series
             if is_1d_list_like(v):
                 try:
@@ -1305,13 +1312,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From 02b0e354efcf471d4e3026730d0345465d324bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 48/91] fix: keep custom time series when setting snapshots
 with periods

---
 pypsa/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index badfc39..4b514a6 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -782,8 +782,10 @@ class Network:
                             fill_value=attrs.default[attrs.varying][k],
                             level="timestep",
                         )
-                else:
+                elif isinstance(dynamic[k].index, pd.MultiIndex):
                     dynamic[k] = dynamic[k].reindex(self._snapshots)
+                else:
+                    dynamic[k] = dynamic[k].reindex(self._snapshots, level="timestep")
 
         # NB: No need to rebind dynamic to self, since haven't changed it
 
-- 
2.43.0


From 1a06ac962636597f2c9f84628f688ce42ebb191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 49/91] fix: do not rename the index passed by the user

---
 pypsa/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index f6ca82c..79de2a0 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -145,11 +145,11 @@ def as_index(
     if values is None:
         values_ = n_attr
     elif isinstance(values, pd.MultiIndex):
-        values_ = values
+        values_ = values.copy()
         values_.names = n_attr.names
         values_.name = n_attr.name
     elif isinstance(values, pd.Index):
-        values_ = values
+        values_ = values.copy()
         # If only timestep level is given for multiindex snapshots
         # TODO: This ambiguity should be resolved
         values_.names = n_attr.names[:1]
-- 
2.43.0


From e095f3524859b9d6a210a9e4ba72bf3c4792f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 50/91] fix: accept lists of snapshots with investment periods

---
 pypsa/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index 79de2a0..e6c5db1 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -156,7 +156,12 @@ def as_index(
     elif not is_list_like(values):
         values_ = pd.Index([values], name=n_attr.names[0])
     else:
-        values_ = pd.Index(values, name=n_attr.names[0])
+        values_ = pd.Index(values)
+        if isinstance(values_, pd.MultiIndex):
+            values_.names = n_attr.names
+            values_.name = n_attr.name
+        else:
+            values_.name = n_attr.names[0]
 
     # if n_attr.nlevels != values_.nlevels:
     #     raise ValueError(
-- 
2.43.0


From 263de55aee3921c2c1ed011fa7b785c39b65bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 51/91] fix: slice networks by snapshot labels and with altered
 standard types

---
 pypsa/networks.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 4b514a6..c2ad558 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1623,8 +1623,16 @@ class Network:
         else:
             time_i = slice(None)
 
+        # Resolve selected snapshots
+        snapshots = self.snapshots.to_series().loc[time_i]
+        if not isinstance(snapshots, pd.Series):
+            snapshots = self.snapshots.to_series().loc[[time_i]]
+        snapshots = self.snapshots.take(
+            self.snapshots.get_indexer(pd.Index(snapshots.array))
+        )
+
         # Setup new network
-        n = self.__class__()
+        n = self.__class__(ignore_standard_types=True)
 
         n.add(
             "Bus",
@@ -1643,9 +1651,7 @@ class Network:
             n.add(c, pd.DataFrame(self.static(c)).index, **pd.DataFrame(self.static(c)))
 
         for c in self.standard_type_components:
-            static = pd.DataFrame(
-                self.static(c).drop(self.components[c]["standard_types"].index)
-            )
+            static = pd.DataFrame(self.static(c))
             n.add(c, static.index, **static)
 
         for c in self.one_port_components:
@@ -1660,7 +1666,7 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        n.set_snapshots(snapshots)
         for c in self.all_components:
             i = n.static(c).index
             try:
@@ -1669,7 +1675,7 @@ class Network:
 
                 for k in dynamic:
                     ndynamic[k] = dynamic[k].loc[
-                        time_i, i.intersection(dynamic[k].columns)
+                        snapshots, i.intersection(dynamic[k].columns)
                     ]
             except AttributeError:
                 pass
@@ -1678,7 +1684,11 @@ class Network:
         for attr in ["name", "_crs"]:
             setattr(n, attr, getattr(self, attr))
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = self.snapshot_weightings.loc[snapshots]
+        if not self.investment_period_weightings.empty:
+            n.investment_period_weightings = self.investment_period_weightings.loc[
+                n.investment_periods
+            ]
 
         return n
 
-- 
2.43.0


From 22ec29827e7f538f391c606e0ac06ec331438b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 52/91] fix: copy networks for selected snapshots and periods

---
 pypsa/networks.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index c2ad558..09abe31 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1535,25 +1535,28 @@ class Network:
             )
             snapshots_ = pd.Index([], name="snapshot")
 
+        # Only consider snapshots in the selected periods and vice versa
+        if self.has_periods and len(snapshots_) > 0:
+            periods = snapshots_.get_level_values("period")
+            snapshots_ = snapshots_[periods.isin(investment_periods_)]
+            investment_periods_ = snapshots_.unique("period")
+
         # Setup new network
-        n = self.__class__(ignore_standard_types=ignore_standard_types)
+        n = self.__class__(ignore_standard_types=True)
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
         # Needs to copy buses and carriers first, since there are dependencies on them
         for component in self.iterate_components(["Bus", "Carrier"] + other_comps):
-            # Drop the standard types to avoid them being read in twice
-            if (
-                not ignore_standard_types
-                and component.name in self.standard_type_components
-            ):
-                static = component.static.drop(
-                    n.components[component.name]["standard_types"].index
-                )
-            else:
-                static = component.static
+            static = component.static
             n.add(component.name, static.index, **static)
 
+        # Sub-networks belong to the copy
+        if "obj" in n.sub_networks:
+            n.sub_networks["obj"] = [
+                SubNetwork(n, name) for name in n.sub_networks.index
+            ]
+
         # Copy time-varying data, if given
 
         if len(snapshots_) > 0:
@@ -1573,9 +1576,10 @@ class Network:
 
             # Add weightings
             n.snapshot_weightings = self.snapshot_weightings.loc[snapshots_].copy()
-            n.investment_period_weightings = self.investment_period_weightings.loc[
-                investment_periods_
-            ].copy()
+            if not self.investment_period_weightings.empty:
+                n.investment_period_weightings = self.investment_period_weightings.loc[
+                    investment_periods_
+                ].copy()
 
         # Catch all remaining attributes of network
         for attr in [
-- 
2.43.0


From 0b9ecf50056847c527040fec847d714183a64631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 53/91] fix: return the merged network when adding networks

---
 pypsa/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 09abe31..1fa3d4f 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -367,9 +367,9 @@ class Network:
 
         return header + content
 
-    def __add__(self, other: Network) -> None:
+    def __add__(self, other: Network) -> Network:
         """Merge all components of two networks."""
-        self.merge(other)
+        return self.merge(other)
 
     def __eq__(self, other: Any) -> bool:
         """
-- 
2.43.0


From 6151e10b13fc031fc0a0fad9649cd20b783d3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 54/91] fix: set the coordinate reference system of the network

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 1fa3d4f..482f116 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -652,7 +652,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, allow_override=True, inplace=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
-- 
2.43.0


From 6de2ad99272dbde04445c1608280e8e4cad4a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 55/91] fix: do not alter or share imported time series

---
 pypsa/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 7e4cdfd..13c3e07 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1549,6 +1549,7 @@ def _import_series_from_df(
         except KeyError:
             pass  # Don't drop any columns if the data doesn't exist yet
 
+    df = df.copy()
     df.columns.name = cls_name
     df.index.name = "snapshot"
 
-- 
2.43.0


From 945e0248aee2feab089d1d9b995c3019b3a629be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 56/91] fix: copy and slice networks with other coordinate
 reference systems

---
 pypsa/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 482f116..b399391 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1543,6 +1543,7 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=True)
+        n.crs = self.crs
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1584,7 +1585,6 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
@@ -1637,6 +1637,7 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=True)
+        n.crs = self.crs
 
         n.add(
             "Bus",
@@ -1685,8 +1686,7 @@ class Network:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
-            setattr(n, attr, getattr(self, attr))
+        n.name = self.name
 
         n.snapshot_weightings = self.snapshot_weightings.loc[snapshots]
         if not self.investment_period_weightings.empty:
-- 
2.43.0


From 5d30cf9de0f24483c2c7983ad0a775a3d17137c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 57/91] fix: merge shapes of networks with another coordinate
 reference system

---
 pypsa/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 13c3e07..2f2ebcd 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1671,7 +1671,10 @@ def merge(
             f"{new.srid}, {other.srid}. Assuming {new.srid}."
         )
     for c in other.iterate_components(to_iterate_list):
-        new.add(c.name, c.static.index, **c.static)
+        static = c.static
+        if c.name == "Shape":
+            static = static.set_crs(new.crs, allow_override=True)
+        new.add(c.name, static.index, **static)
         if with_time:
             for k, v in c.dynamic.items():
                 new._import_series_from_df(v, c.name, k)
-- 
2.43.0


From 0a381e5514bcf16baf797137220825825fd6854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 58/91] fix: export networks with altered standard types

---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 2f2ebcd..124f0ce 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -793,7 +793,9 @@ def _export_to_exporter(
             static = pd.DataFrame(static).assign(geometry=static["geometry"].to_wkt())
 
         if not export_standard_types and component in n.standard_type_components:
-            static = static.drop(n.components[component]["standard_types"].index)
+            static = static.drop(
+                n.components[component]["standard_types"].index, errors="ignore"
+            )
 
         # first do static attributes
         static = static.rename_axis(index="name")
-- 
2.43.0


From c41a3d5a2030ba51c041d05a1ee2bc870a747b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 59/91] fix: import networks without name

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 124f0ce..d7d1997 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1214,7 +1214,8 @@ def _import_from_importer(
     pypsa_version = None
 
     if attrs is not None:
-        n.name = attrs.pop("name")
+        name = attrs.pop("name")
+        n.name = "" if pd.isnull(name) else str(name)
 
         try:
             pypsa_version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
-- 
2.43.0


From 2d93d240304574d6ac3071990ac4610150f4c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 60/91] fix: keep snapshots which are no time stamps in CSV and
 Excel files

---
 pypsa/io.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index d7d1997..a801b51 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -25,6 +25,7 @@ from deprecation import deprecated
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
+from pypsa.constants import DEFAULT_TIMESTAMP
 from pypsa.descriptors import update_linkports_component_attrs
 
 try:
@@ -72,6 +73,20 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
 TImpExper = TypeVar("TImpExper", bound="ImpExper")
 
 
+def _parse_timesteps(timesteps: pd.Series) -> pd.Series:
+    """
+    Parse time stamps which are given as text.
+
+    Timesteps which are no time stamps, e.g. integers, are kept as they are.
+    """
+    if timesteps.dtype != object or timesteps.isin([DEFAULT_TIMESTAMP]).any():
+        return timesteps
+    try:
+        return pd.to_datetime(timesteps)
+    except ValueError:
+        return timesteps
+
+
 class ImpExper:
     ds: Any = None
 
@@ -181,9 +196,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_timesteps(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_timesteps(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -350,9 +365,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_timesteps(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_timesteps(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
-- 
2.43.0


From 3bafb8d08ad46e8b3ead33f47104c064e37a59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 61/91] fix: keep names and text which look like numbers in CSV
 files

---
 pypsa/io.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index a801b51..af4cbfb 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -25,6 +25,7 @@ from deprecation import deprecated
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
+from pypsa.components.types import get as get_component_type
 from pypsa.constants import DEFAULT_TIMESTAMP
 from pypsa.descriptors import update_linkports_component_attrs
 
@@ -211,13 +212,25 @@ class ImporterCSV(Importer):
 
     def get_static(self, list_name: str) -> pd.DataFrame:
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
-        return (
-            pd.read_csv(
-                fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar
+        if not fn.is_file():
+            return None
+        kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
+        # names and text must not be interpreted as numbers or missing values
+        attrs = get_component_type(list_name).defaults
+        columns = pd.read_csv(fn, nrows=0, **kwargs).columns
+        text = [
+            col
+            for i, col in enumerate(columns)
+            if i > 0
+            and (
+                (col in attrs.index and attrs.at[col, "type"] == "string")
+                or (col.startswith("bus") and col[3:].isdigit())
             )
-            if fn.is_file()
-            else None
-        )
+        ]
+        converters = {columns[0]: str} | dict.fromkeys(text, str)
+        df = pd.read_csv(fn, index_col=0, converters=converters, **kwargs)
+        df[text] = df[text].replace("", np.nan)
+        return df
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
-- 
2.43.0


From 9d20f1ec3a0d956552433c38929ab6319592f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 62/91] fix: keep names and text which look like numbers in
 Excel files

---
 pypsa/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index af4cbfb..573c21c 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -327,11 +327,15 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        reader = partial(pd.read_excel, sheet_name=None, engine=self.engine)
+        # keep text which looks like numbers
+        reader = partial(
+            pd.read_excel, sheet_name=None, engine=self.engine, dtype=object
+        )
         if validators.url(str(path)):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
             self.sheets = reader(path)
+        self.sheets = {k: v.infer_objects() for k, v in self.sheets.items()}
         self.index: dict = {}
 
     def get_attributes(self) -> dict | None:
-- 
2.43.0


From def8838a5665499e81a9d0589f76c80e26e922af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 63/91] fix: do not add components to Excel sheets without
 attributes

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 573c21c..f987ba4 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -474,7 +474,8 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df.to_excel(self.writer, sheet_name=list_name)
+        # without columns, pandas writes an additional row for the index name
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 3dbb8f7eaf141bf6fbd25056bd5d311744efa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 64/91] fix: keep types of meta data in Excel files

---
 pypsa/io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index f987ba4..0f664df 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -454,10 +454,8 @@ class ExporterExcel(Exporter):
         # Convert meta dictionary to DataFrame with proper handling of nested dicts
         meta_items = []
         for key, value in meta.items():
-            # If value is a dict, serialize it as JSON
-            if isinstance(value, dict):
-                value = json.dumps(value)
-            meta_items.append([key, value])
+            # Serialize value as JSON
+            meta_items.append([key, json.dumps(value)])
 
         df = pd.DataFrame(meta_items, columns=["Key", "Value"])
         df.to_excel(self.writer, sheet_name="meta", index=False)
-- 
2.43.0


From 3c70a3ce7f448240cbafb5f433bd0472d5601445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 65/91] fix: export time series which override static values by
 defaults

---
 pypsa/io.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0f664df..f15df2b 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -864,15 +864,23 @@ def _export_to_exporter(
                 default = attrs.at[attr, "default"]
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    altered = (~pd.isnull(dynamic[attr])).any()
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    altered = (dynamic[attr] != default).any()
+
+                # default values are needed as well if they override a static value
+                if attr in static:
+                    values = static[attr].reindex(dynamic[attr].columns)
+                    if pd.isnull(default):
+                        altered |= ~pd.isnull(values)
+                    else:
+                        altered |= values.notnull() & (values != default)
+
+                col_export = dynamic[attr].columns[altered]
 
             if len(col_export) > 0:
-                static = dynamic[attr].reset_index()[col_export]
-                exporter.save_series(list_name, attr, static)
+                series = dynamic[attr].reset_index()[col_export]
+                exporter.save_series(list_name, attr, series)
             else:
                 exporter.remove_series(list_name, attr)
 
-- 
2.43.0


From 0ddb3bcc01c28e801a0c6f71f265bc50060ff14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 66/91] fix: remove stale files and sheets of components

---
 pypsa/io.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index f15df2b..754757d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -297,10 +297,15 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = [
+            fn
+            for fn in self.csv_folder_name.glob("*.csv")
+            if fn.name == f"{list_name}.csv" or fn.name.startswith(f"{list_name}-")
+        ]
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
@@ -483,6 +488,10 @@ class ExporterExcel(Exporter):
         if list_name in self.writer.book.sheetnames:
             del self.writer.book[list_name]
             logger.warning(f"Stale sheet {list_name} removed")
+        for sheet_name in self.writer.book.sheetnames:
+            if sheet_name.startswith(f"{list_name}-"):
+                del self.writer.book[sheet_name]
+                logger.warning(f"Stale sheet {sheet_name} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From c2151deaf10db1f164ad750112efe9527f59c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 67/91] fix: keep null in meta data of Excel files

---
 pypsa/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 754757d..ee8be4f 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -364,6 +364,9 @@ class ImporterExcel(Importer):
                             value = json.loads(value)
                         except json.JSONDecodeError:
                             pass
+                    # pandas reads null as missing value
+                    elif pd.isnull(value):
+                        value = None
 
                     meta[key] = value
                 return meta
-- 
2.43.0


From 60e4371431e1de6a60c903e02a809b8a17ac1a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 68/91] fix: keep names and text which look like missing values
 in CSV and Excel files

---
 pypsa/io.py | 65 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index ee8be4f..4cd3021 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -25,6 +25,7 @@ from deprecation import deprecated
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
+from pypsa.components.types import all_components
 from pypsa.components.types import get as get_component_type
 from pypsa.constants import DEFAULT_TIMESTAMP
 from pypsa.descriptors import update_linkports_component_attrs
@@ -88,6 +89,26 @@ def _parse_timesteps(timesteps: pd.Series) -> pd.Series:
         return timesteps
 
 
+def _text_converters(list_name: str, columns: pd.Index) -> dict:
+    """
+    Get converters which keep names and text attributes of components as they are.
+
+    Otherwise text would be interpreted as numbers or missing values if possible.
+    """
+    attrs = get_component_type(list_name).defaults
+    text = [
+        col
+        for col in columns[1:]
+        if (col in attrs.index and attrs.at[col, "type"] == "string")
+        or (str(col).startswith("bus") and str(col)[3:].isdigit())
+    ]
+
+    def as_text(value: Any) -> Any:
+        return np.nan if value == "" else str(value)
+
+    return dict.fromkeys(columns[:1], str) | dict.fromkeys(text, as_text)
+
+
 class ImpExper:
     ds: Any = None
 
@@ -169,10 +190,13 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
 
-        dtypes = {"pypsa_version": str}
+        converters = {"name": str, "pypsa_version": str}
         return dict(
             pd.read_csv(
-                fn, encoding=self.encoding, dtype=dtypes, quotechar=self.quotechar
+                fn,
+                encoding=self.encoding,
+                converters=converters,
+                quotechar=self.quotechar,
             ).iloc[0]
         )
 
@@ -215,22 +239,9 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
         kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
-        # names and text must not be interpreted as numbers or missing values
-        attrs = get_component_type(list_name).defaults
         columns = pd.read_csv(fn, nrows=0, **kwargs).columns
-        text = [
-            col
-            for i, col in enumerate(columns)
-            if i > 0
-            and (
-                (col in attrs.index and attrs.at[col, "type"] == "string")
-                or (col.startswith("bus") and col[3:].isdigit())
-            )
-        ]
-        converters = {columns[0]: str} | dict.fromkeys(text, str)
-        df = pd.read_csv(fn, index_col=0, converters=converters, **kwargs)
-        df[text] = df[text].replace("", np.nan)
-        return df
+        converters = _text_converters(list_name, columns)
+        return pd.read_csv(fn, index_col=0, converters=converters, **kwargs)
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
@@ -332,17 +343,27 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        # keep text which looks like numbers
-        reader = partial(
-            pd.read_excel, sheet_name=None, engine=self.engine, dtype=object
-        )
+        reader = partial(self._read_sheets, engine=self.engine)
         if validators.url(str(path)):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
             self.sheets = reader(path)
-        self.sheets = {k: v.infer_objects() for k, v in self.sheets.items()}
         self.index: dict = {}
 
+    @staticmethod
+    def _read_sheets(path: str | Path, engine: str) -> dict[str, pd.DataFrame]:
+        sheets = {}
+        with pd.ExcelFile(path, engine=engine) as book:
+            for name in book.sheet_names:
+                converters = {}
+                if name == "network":
+                    converters = {"name": str, "pypsa_version": str}
+                elif name in all_components:
+                    columns = book.parse(name, nrows=0).columns
+                    converters = _text_converters(name, columns)
+                sheets[name] = book.parse(name, converters=converters)
+        return sheets
+
     def get_attributes(self) -> dict | None:
         try:
             return dict(self.sheets["network"].iloc[0])
-- 
2.43.0


From 122cf3a1e63da3427c5900ceb2947b7ac243deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 69/91] fix: keep names and text which look like missing values
 in CSV and Excel files

---
 pypsa/io.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 4cd3021..d01f0a9 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -89,24 +89,21 @@ def _parse_timesteps(timesteps: pd.Series) -> pd.Series:
         return timesteps
 
 
-def _text_converters(list_name: str, columns: pd.Index) -> dict:
+def _keep_text(df: pd.DataFrame, raw: pd.DataFrame, list_name: str) -> pd.DataFrame:
     """
-    Get converters which keep names and text attributes of components as they are.
+    Take over names and text attributes from unparsed component data.
 
     Otherwise text would be interpreted as numbers or missing values if possible.
     """
     attrs = get_component_type(list_name).defaults
-    text = [
-        col
-        for col in columns[1:]
-        if (col in attrs.index and attrs.at[col, "type"] == "string")
-        or (str(col).startswith("bus") and str(col)[3:].isdigit())
-    ]
-
-    def as_text(value: Any) -> Any:
-        return np.nan if value == "" else str(value)
-
-    return dict.fromkeys(columns[:1], str) | dict.fromkeys(text, as_text)
+    for i, col in enumerate(df.columns):
+        if i == 0:
+            df[col] = raw[col].astype(str)
+        elif (col in attrs.index and attrs.at[col, "type"] == "string") or (
+            str(col).startswith("bus") and str(col)[3:].isdigit()
+        ):
+            df[col] = raw[col].map(lambda x: np.nan if x == "" else str(x))
+    return df
 
 
 class ImpExper:
@@ -239,9 +236,10 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
         kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
-        columns = pd.read_csv(fn, nrows=0, **kwargs).columns
-        converters = _text_converters(list_name, columns)
-        return pd.read_csv(fn, index_col=0, converters=converters, **kwargs)
+        df = pd.read_csv(fn, **kwargs)
+        raw = pd.read_csv(fn, dtype=str, keep_default_na=False, **kwargs)
+        df = _keep_text(df, raw, list_name)
+        return df.set_index(df.columns[0])
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
@@ -355,13 +353,14 @@ class ImporterExcel(Importer):
         sheets = {}
         with pd.ExcelFile(path, engine=engine) as book:
             for name in book.sheet_names:
-                converters = {}
+                df = book.parse(name)
+                raw = book.parse(name, dtype=object, keep_default_na=False)
                 if name == "network":
-                    converters = {"name": str, "pypsa_version": str}
+                    text = df.columns.intersection(["name", "pypsa_version"])
+                    df[text] = raw[text].astype(str)
                 elif name in all_components:
-                    columns = book.parse(name, nrows=0).columns
-                    converters = _text_converters(name, columns)
-                sheets[name] = book.parse(name, converters=converters)
+                    df = _keep_text(df, raw, name)
+                sheets[name] = df
         return sheets
 
     def get_attributes(self) -> dict | None:
-- 
2.43.0


From 546edfe3024fe00af467f3655968164d1ceeadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 70/91] fix: remove stale series of components

---
 pypsa/io.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index d01f0a9..34bb7ea 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -137,6 +137,10 @@ class Exporter(ImpExper):
     def remove_series(self, list_name: str, attr: str) -> None:
         pass
 
+    def stored_series(self, list_name: str) -> list[str]:
+        """Attributes with time series which are already stored."""
+        return []
+
     @abstractmethod
     def save_attributes(self, attrs: dict) -> None:
         pass
@@ -306,21 +310,24 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        fns = [
-            fn
-            for fn in self.csv_folder_name.glob("*.csv")
-            if fn.name == f"{list_name}.csv" or fn.name.startswith(f"{list_name}-")
-        ]
-        if fns:
-            for fn in fns:
-                fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
+        fn = self.csv_folder_name.joinpath(list_name + ".csv")
+        if fn.exists():
+            fn.unlink()
+            logger.warning(f"Stale csv file {fn} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
         if fn.exists():
             fn.unlink()
 
+    def stored_series(self, list_name: str) -> list[str]:
+        prefix = f"{list_name}-"
+        return [
+            fn.name[len(prefix) : -4]
+            for fn in self.csv_folder_name.glob("*.csv")
+            if fn.name.startswith(prefix)
+        ]
+
 
 class ImporterExcel(Importer):
     def __init__(self, path: str | Path, engine: str = "calamine") -> None:
@@ -511,10 +518,6 @@ class ExporterExcel(Exporter):
         if list_name in self.writer.book.sheetnames:
             del self.writer.book[list_name]
             logger.warning(f"Stale sheet {list_name} removed")
-        for sheet_name in self.writer.book.sheetnames:
-            if sheet_name.startswith(f"{list_name}-"):
-                del self.writer.book[sheet_name]
-                logger.warning(f"Stale sheet {sheet_name} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
@@ -522,6 +525,14 @@ class ExporterExcel(Exporter):
             del self.writer.book[sheet_name]
             logger.warning(f"Stale sheet {sheet_name} removed")
 
+    def stored_series(self, list_name: str) -> list[str]:
+        prefix = f"{list_name}-"
+        return [
+            sheet_name[len(prefix) :]
+            for sheet_name in self.writer.book.sheetnames
+            if sheet_name.startswith(prefix)
+        ]
+
     def finish(self) -> None:
         # Remove temp sheet if it exists
         if "_temp" in self.writer.book.sheetnames:
@@ -864,6 +875,8 @@ def _export_to_exporter(
         static = static.rename_axis(index="name")
         if static.empty:
             exporter.remove_static(list_name)
+            for attr in exporter.stored_series(list_name):
+                exporter.remove_series(list_name, attr)
             continue
 
         col_export = []
@@ -916,6 +929,10 @@ def _export_to_exporter(
             else:
                 exporter.remove_series(list_name, attr)
 
+        for attr in exporter.stored_series(list_name):
+            if attr not in dynamic:
+                exporter.remove_series(list_name, attr)
+
         exported_components.append(list_name)
 
     logger.info(
-- 
2.43.0


From 133c5a13cea7d55eb285cd5b5f255da82f961959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 71/91] fix: leave out components without carrier in filtered
 statistics

---
 pypsa/statistics/abstract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 863e78e..9f3712e 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -358,10 +358,14 @@ class AbstractStatisticsAccessor(ABC):
         obj: Any,
     ) -> Any:
         """Filter the DataFrame for components which have the specified carrier."""
-        if carrier is None or "carrier" not in n.static(c):
+        if carrier is None:
             return obj
 
         idx = self._get_component_index(obj, c)
+        if "carrier" not in n.static(c):
+            # components without carrier do not have the given carrier
+            return obj.loc[idx[:0]]
+
         carriers = n.static(c).loc[idx, "carrier"]
 
         if isinstance(carrier, str):
-- 
2.43.0


From 6a9e4ee03b497903fa885ae3342590310b622e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 72/91] fix: accept custom groupers without name in statistics
 of several ports

---
 pypsa/statistics/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index fea9ff6..e51c0fd 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -214,7 +214,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         """Concatenate a list of DataFrames."""
         df = pd.concat(values, copy=False) if len(values) > 1 else values[0]
         if not df.index.is_unique:
-            df = df.groupby(level=df.index.names).agg(agg)
+            df = df.groupby(level=list(range(df.index.nlevels))).agg(agg)
         return df
 
     def _aggregate_components_concat_data(
@@ -265,7 +265,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
     def _aggregate_across_components(
         self, df: pd.Series | pd.DataFrame, agg: Callable | str
     ) -> pd.Series | pd.DataFrame:
-        levels = [l for l in df.index.names if l != "component"]
+        levels = [i for i, l in enumerate(df.index.names) if l != "component"]
         return df.groupby(level=levels).agg(agg)
 
     def _aggregate_components_skip_iteration(
-- 
2.43.0


From e3024798fbf60ea759bca0a8e47b1e70e695fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 73/91] fix: leave out components without capacity in capacity
 factors

---
 pypsa/statistics/expressions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index e51c0fd..fed9388 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1950,6 +1950,9 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         # TODO: Why not just take p_max_pu, s_max_pu, etc. directly from the network?
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
+            if c not in nominal_attrs:
+                # components without capacity, e.g. loads
+                return pd.Series([], dtype=float)
             p = get_operation(n, c).abs()
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
-- 
2.43.0


From b2ca357a901d154a3a3dda81b070fb05d122a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 74/91] fix: calculate system costs of components with only one
 type of costs

---
 pypsa/statistics/expressions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index fed9388..f361f2c 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1309,7 +1309,13 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        df = capex.add(opex, fill_value=0)
+        # empty results do not have columns for investment periods
+        if opex.empty:
+            df = capex
+        elif capex.empty:
+            df = opex
+        else:
+            df = capex.add(opex, fill_value=0)
         df.attrs["name"] = "System Cost"
         df.attrs["unit"] = "currency"
         return df
-- 
2.43.0


From 3cdc5fd0088068d2557db03ea4df52401a4c22e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 75/91] fix: name index of ungrouped statistics independently
 of the components

---
 pypsa/statistics/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index f361f2c..662ccd3 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -229,7 +229,9 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         index_names = [x.index.names for x in d.values()]
         # If index names are the same, use them
         if all(x == index_names[0] for x in index_names):
-            col_names = ["component"] + index_names[0]
+            # without grouping, the index is named after the component
+            names = ["name" if name in d else name for name in index_names[0]]
+            col_names = ["component"] + names
         # Otherwise, use default column names
         elif all(len(x) == 1 for x in index_names):
             col_names = ["component", "name"]
-- 
2.43.0


From d2670ae66932c0e7c7db8e1f57c4f208a7a4a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 76/91] fix: name groups of custom groupers without name

---
 pypsa/statistics/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 9f3712e..066637e 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -148,6 +148,9 @@ class AbstractStatisticsAccessor(ABC):
                 by = groupby(n, c, port=port, nice_names=nice_names)
             except TypeError:
                 by = groupby(n, c, nice_names=nice_names)
+            if isinstance(by, pd.Series) and by.name is None:
+                # results of several components and ports are aligned by name
+                by = by.rename("group")
         elif isinstance(groupby, (str | list)):
             by = groupers[groupby](n, c, port=port, nice_names=nice_names)
         elif groupby is not False:
-- 
2.43.0


From ae3f82be83b29d98229539c1ced8a3744691f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 77/91] fix: name index of ungrouped operational expenditure

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 662ccd3..8ea1c33 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -230,7 +230,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         # If index names are the same, use them
         if all(x == index_names[0] for x in index_names):
             # without grouping, the index is named after the component
-            names = ["name" if name in d else name for name in index_names[0]]
+            names = ["name" if x is None or x in d else x for x in index_names[0]]
             col_names = ["component"] + names
         # Otherwise, use default column names
         elif all(len(x) == 1 for x in index_names):
-- 
2.43.0


From 972f728103a5eefa7a0f8fc677da237e4f53f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 78/91] fix: expanded capacity without installed capacity in
 several investment periods

---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 8ea1c33..f1c5330 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1031,7 +1031,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        installed = installed.reindex(optimal.index, fill_value=0)
+        # zeros are missing in results for several investment periods
+        installed = installed.reindex(optimal.index, fill_value=0).fillna(0)
         df = optimal.sub(installed).where(optimal.abs() > installed.abs(), 0)
         df.attrs["name"] = "Expanded Capacity"
         df.attrs["unit"] = "MW"
-- 
2.43.0


From 1980c3385f67c06d2d505edcb9958bebad152f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 79/91] fix: do not share the global constraints with the
 clustered network

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..054348a 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -503,7 +503,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
-- 
2.43.0


From bee40a6b5588356d193d81d9bf498a42f71b7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 80/91] fix: do not carry time series of links within a cluster
 over to the clustered network

---
 pypsa/clustering/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 054348a..c8b8c53 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -586,6 +586,7 @@ def get_clustering_from_busmap(
 
     if with_time:
         for attr, df in n.links_t.items():
+            df = df.loc[:, df.columns.intersection(new_links.index)]
             if not df.empty:
                 io._import_series_from_df(clustered, df, "Link", attr)
 
-- 
2.43.0


From c8ccd0fadf55f24d49b05b724f6e8e0de8bc50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 81/91] fix: map all ports of multilinks to the clustered buses

---
 pypsa/clustering/spatial.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c8b8c53..5b1340e 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -18,6 +18,7 @@ from packaging.version import Version, parse
 from pandas import Series
 
 from pypsa import io
+from pypsa.descriptors import additional_linkports
 from pypsa.geo import haversine_pts
 
 if TYPE_CHECKING:
@@ -564,11 +565,13 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
-    new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
-        .loc[lambda df: df.bus0 != df.bus1]
-    )
+    # additional ports of multilinks may be unused, i.e. without bus
+    additional_buses = [f"bus{port}" for port in additional_linkports(n)]
+    link_buses = ["bus0", "bus1", *additional_buses]
+    new_links = n.links.assign(**{b: n.links[b].map(busmap) for b in link_buses})
+    new_links = new_links.dropna(subset=["bus0", "bus1"])
+    new_links = new_links[new_links[link_buses].nunique(axis=1) > 1]
+    new_links[additional_buses] = new_links[additional_buses].fillna("")
 
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
-- 
2.43.0


From 0faa2a5f12a6c9db43341bc94ec2413be9f64d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 82/91] fix: spatial clustering of networks with results

---
 pypsa/clustering/spatial.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 5b1340e..de01170 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -258,13 +258,25 @@ def aggregateoneport(
 
     dynamic = dict()
     if with_time:
-        dynamic_strategies = align_strategies(strategies, n.dynamic(c), c)
-        for attr, data in n.dynamic(c).items():
+        # results without an own strategy are not meaningful for the aggregate
+        output_series = attrs.index[~attrs.static & attrs.status.str.startswith("Output")]
+        skip = output_series.difference(
+            [*DEFAULT_ONE_PORT_STRATEGIES, *custom_strategies]
+        )
+        dynamic_attrs = [attr for attr in n.dynamic(c) if attr not in skip]
+        dynamic_strategies = align_strategies(strategies, dynamic_attrs, c)
+        for attr in dynamic_attrs:
+            data = n.dynamic(c)[attr]
             if data.empty:
                 dynamic[attr] = data
                 continue
             strategy = dynamic_strategies[attr]
-            data = n.get_switchable_as_dense(c, attr)
+            if attr in n.static(c):
+                data = n.get_switchable_as_dense(c, attr)
+            else:
+                data = data.reindex(
+                    columns=n.static(c).index, fill_value=attrs.default.get(attr)
+                )
             aggregated = data.loc[:, to_aggregate]
 
             if strategy == "weighted_average":
@@ -426,15 +438,23 @@ def aggregatelines(
 
     dynamic = {}
     if with_time:
-        dynamic_strategies = align_strategies(strategies, n.dynamic("Line"), "Line")
-
-        for attr, data in n.lines_t.items():
+        # results without an own strategy are not meaningful for the aggregate
+        output_series = attrs.index[~attrs.static & attrs.status.str.startswith("Output")]
+        skip = output_series.difference([*DEFAULT_LINE_STRATEGIES, *custom_strategies])
+        dynamic_attrs = [attr for attr in n.lines_t if attr not in skip]
+        dynamic_strategies = align_strategies(strategies, dynamic_attrs, "Line")
+
+        for attr in dynamic_attrs:
+            data = n.lines_t[attr]
             if data.empty:
                 dynamic[attr] = data
                 continue
 
             strategy = dynamic_strategies[attr]
-            data = n.get_switchable_as_dense("Line", attr, inds=idx)
+            if attr in n.lines:
+                data = n.get_switchable_as_dense("Line", attr, inds=idx)
+            else:
+                data = data.reindex(columns=idx, fill_value=attrs.default.get(attr))
 
             if strategy == "capacity_weighted_average":
                 data = data * capacity_weights
-- 
2.43.0


From e847f47f1f10a9bbf0131335e52af86b4c15f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 83/91] fix: round averaged build years of clustered lines
 instead of truncating

---
 pypsa/clustering/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index de01170..df09bf9 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -436,6 +436,10 @@ def aggregatelines(
 
     static = static.groupby(grouper).agg(static_strategies)
 
+    # averages of integers are not exact, avoid that they get truncated
+    int_columns = static.columns.intersection(attrs.index[attrs.typ == int])
+    static[int_columns] = static[int_columns].round()
+
     dynamic = {}
     if with_time:
         # results without an own strategy are not meaningful for the aggregate
-- 
2.43.0


From d361424cee7663a2f4f30d76b8cbe0afc6ce5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 84/91] fix: strategy weighted_min applies to its own attribute

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index df09bf9..ef25aba 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -244,7 +244,7 @@ def aggregateoneport(
             static[k] = static[k] * capacity_weights
             static_strategies[k] = "sum"
         elif v == "weighted_min":
-            static["p_nom_max"] /= weights
+            static[k] = static[k] / weights
             static_strategies[k] = "min"
 
     aggregated = static.groupby(grouper).agg(static_strategies)
-- 
2.43.0


From 1101c52c41c6dd9634e6cb3c04d18881938cfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 85/91] fix: keep results of components which are not
 aggregated when clustering

---
 pypsa/clustering/spatial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index ef25aba..8478c67 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -265,9 +265,10 @@ def aggregateoneport(
         )
         dynamic_attrs = [attr for attr in n.dynamic(c) if attr not in skip]
         dynamic_strategies = align_strategies(strategies, dynamic_attrs, c)
-        for attr in dynamic_attrs:
-            data = n.dynamic(c)[attr]
-            if data.empty:
+        for attr, data in n.dynamic(c).items():
+            if attr in skip:
+                data = data.loc[:, data.columns.isin(n.static(c).index[~to_aggregate])]
+            if data.empty or attr in skip:
                 dynamic[attr] = data
                 continue
             strategy = dynamic_strategies[attr]
-- 
2.43.0


From 7799df519d02c079c6a2dc17543f647fdd7e3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 86/91] fix: keep the line types when clustering

---
 pypsa/clustering/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 8478c67..f9a8b28 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -524,6 +524,7 @@ def get_clustering_from_busmap(
     )
 
     clustered = n.__class__()
+    clustered.line_types = n.line_types.copy()
 
     clustered.add("Bus", buses.index, **buses)
     clustered.add("Line", lines.index, **lines)
-- 
2.43.0


From b56c92ba785a59e463c8292fbe812a5fcd971512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 87/91] fix: only bus and bus<port> are bus columns in the
 consistency check

---
 pypsa/consistency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 0c6093f..180968d 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -27,7 +27,7 @@ class ConsistencyError(ValueError):
 
 
 def _bus_columns(df: pd.DataFrame) -> pd.Index:
-    return df.columns[df.columns.str.startswith("bus")]
+    return df.columns[df.columns.str.fullmatch(r"bus\d*")]
 
 
 def _log_or_raise(strict: bool, message: str, *args: Any) -> None:
@@ -66,7 +66,7 @@ def check_for_unknown_buses(
     for attr in _bus_columns(component.static):
         missing = ~component.static[attr].astype(str).isin(n.buses.index)
         # if bus2, bus3... contain empty strings do not warn
-        if component.name in n.branch_components and int(attr[-1]) > 1:
+        if component.name in n.branch_components and int(attr[3:]) > 1:
             missing &= component.static[attr] != ""
         if missing.any():
             _log_or_raise(
-- 
2.43.0


From cd2c96a62f6dfdbc21c427804c9462d318c3e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 88/91] fix: do not require a bus for global constraints in the
 consistency check

---
 pypsa/consistency.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 180968d..7e6d019 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -68,6 +68,9 @@ def check_for_unknown_buses(
         # if bus2, bus3... contain empty strings do not warn
         if component.name in n.branch_components and int(attr[3:]) > 1:
             missing &= component.static[attr] != ""
+        # the bus of global constraints is optional
+        if component.name == "GlobalConstraint":
+            missing &= component.static[attr].fillna("") != ""
         if missing.any():
             _log_or_raise(
                 strict,
-- 
2.43.0


From 9819fe59dfc7233939e33ba2aefb58543ea89a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 89/91] fix: raise ConsistencyError for inconsistent investment
 periods

---
 pypsa/consistency.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 7e6d019..107f939 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -616,20 +616,14 @@ def check_investment_periods(n: Network, strict: bool = False) -> None:
                 "The global constraints contain investment periods which "
                 "are not in the set of optimized snapshots."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
     else:
         if constraint_periods:
             msg = (
                 "The global constraints contain investment periods but "
                 "snapshots are not multi-indexed."
             )
-            if strict:
-                raise ValueError(msg)
-            else:
-                _log_or_raise(strict, msg)
+            _log_or_raise(strict, msg)
 
 
 @deprecated_common_kwargs
-- 
2.43.0


From fb42c70d24e5f8272209422d599eb2db3b00801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 90/91] fix: shapes have the data type geometry in the
 consistency check

---
 pypsa/components/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/components/types.py b/pypsa/components/types.py
index e7bf0f8..3667f15 100644
--- a/pypsa/components/types.py
+++ b/pypsa/components/types.py
@@ -106,6 +106,7 @@ def add_component_type(
                 "boolean": np.dtype(bool),
                 "int": np.dtype(int),
                 "string": np.dtype("O"),
+                "geometry": "geometry",
             }
         )
         .fillna(np.dtype(float))
-- 
2.43.0


From 75e3f4714d4329d02b7cd45222af6a88009c3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 91/91] fix: consistency check of networks with missing
 snapshots in time series

---
 pypsa/consistency.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 107f939..f3c3e52 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -368,8 +368,12 @@ def check_time_series_power_attributes(
 
         if len(varying_attr):
             attr = varying_attr[0][0]
-            max_pu = n.get_switchable_as_dense(component.name, attr + "_max_pu")
-            min_pu = n.get_switchable_as_dense(component.name, attr + "_min_pu")
+            # missing snapshots are reported by check_time_series
+            sns = n.snapshots
+            for data in ("_max_pu", "_min_pu"):
+                sns = sns[sns.isin(component.dynamic[attr + data].index)]
+            max_pu = n.get_switchable_as_dense(component.name, attr + "_max_pu", sns)
+            min_pu = n.get_switchable_as_dense(component.name, attr + "_min_pu", sns)
 
             # check for NaN values:
             if max_pu.isna().to_numpy().any():
-- 
2.43.0

