"""Single source for properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
O = "pypsa/optimization/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


COMMON = "Runtime monitoring of the real code on seeded random and directed hostile workloads; assurance is exploration, not proof. "

prop("P01", "Power balance at every bus and snapshot of an optimised network",
     "After a successful optimisation, at every bus and every optimised snapshot the reported injections of all active generators, loads, storages, stores and every port of every link, net of flows into lines and transformers, sum to zero (including signs, efficiencies and losses). Reported link port powers, load consumption, storage net power and bus injections are exactly those implied by the decisions, and inactive components exchange nothing.",
     ["inputs", "configurations"], "all networks, port layouts, signs, efficiencies, activity flags, snapshot subsets and bus connectivity degrees",
     "Tests balance a handful of fixed example networks; ports, signs, activity, densely connected buses and partial snapshot ranges combine freely.",
     [O + "constraints.py", O + "optimize.py", O + "common.py"],
     [("nodal balance rows", O + "constraints.py define_nodal_balance_constraints"), ("solution write-back", O + "optimize.py assign_solution, post_processing")],
     ["generators_t.p, loads_t.p, links_t.p*, lines_t.p0/p1, buses_t.p after n.optimize()"],
     "runtime monitor: independent bus-balance oracle over random LOPF executions", "Balances recomputed from reported series with an independently written model.")
prop("P02", "Dispatch and capacities respect exactly the declared bounds",
     "In every optimised network each active asset's operation lies within its (static or time-dependent) per-unit limits times its fixed or optimised capacity, optimised capacities lie within their minimum/maximum, equal prescribed set-points and are multiples of their module size, and prescribed operation set-points are met. Fixed assets report their given capacity as optimal. No additional restriction is imposed: the optimum equals that of an independent model.",
     ["inputs", "configurations"], "all mixes of fixed, extendable, modular, committable and inactive assets with static or dynamic limits",
     "Tests check a few assets with fixed parameters; the static/dynamic, fixed/extendable/modular/committable and activity combinations are not enumerated.",
     [O + "constraints.py", O + "variables.py", "pypsa/descriptors.py"],
     [("operational bounds", O + "constraints.py define_operational_constraints_for_*"), ("capacity bounds", O + "constraints.py define_nominal_constraints_for_extendables, define_modular_constraints, define_fixed_*"), ("bounds lookup", "pypsa/descriptors.py get_bounds_pu, get_switchable_as_dense")],
     ["p, p0, s, e, p_nom_opt ... after n.optimize()"],
     "runtime monitor: independent bound/set-point oracle plus reference optimum", "Every bound row re-evaluated; exactness via reference LP/MILP optimum.")
prop("P03", "Storage levels follow from charging, losses, inflow and time weights",
     "For every storage unit and store the level at each optimised snapshot equals the previous level after standing losses plus efficiency-weighted charging minus discharging plus inflow minus spillage, times the elapsed hours; the first level continues from the given initial level, or wraps around cyclically (per horizon or per investment period, as requested), skipping snapshots in which the asset is inactive.",
     ["inputs", "histories"], "all horizons, weightings, cyclic/initial/per-period settings, inflows and vintages",
     "Tests cover a few cyclic/non-cyclic cases with hourly weights; the recursion must hold across every combination of period handling, weighting and partial horizons.",
     [O + "constraints.py"], [("storage recursion", O + "constraints.py define_storage_unit_constraints, define_store_constraints"), ("spillage", O + "variables.py define_spillage_variables")],
     ["state_of_charge, p_dispatch, p_store, spill, e, p after n.optimize()"],
     "runtime monitor: level-recursion oracle over random storage workloads", "Recursion recomputed from inputs; exactness via reference optimum.")
prop("P04", "Optimised branch flows obey Kirchhoff's voltage law",
     "In every optimised network the flows of active lines and transformers are exactly those of a linear power flow: in each synchronous AC (DC) area there are nodal potentials whose differences equal reactance (resistance) times flow, while links stay freely controllable. Running the linear power flow with the optimised dispatch reproduces the optimised flows, and reported voltage angles match them.",
     ["inputs", "configurations"], "all topologies: meshes, parallel branches, transformers between voltage levels, inactive branches, several areas, changing topology over periods",
     "Cycle constraints depend on the topology; tests use few fixed meshes, none with e.g. inactive branches inside cycles.",
     [O + "constraints.py", "pypsa/pf.py", "pypsa/graph.py"],
     [("cycle constraints", O + "constraints.py define_kirchhoff_voltage_constraints"), ("cycle basis", "pypsa/pf.py find_cycles"), ("sub-networks", "pypsa/graph.py adjacency_matrix; pypsa/networks.py determine_network_topology")],
     ["lines_t.p0, transformers_t.p0, buses_t.v_ang after n.optimize() and n.lpf()"],
     "runtime monitor: potential-existence oracle and optimise/LPF differential", "KVL restated with bus angles, independent of cycle bases.")
prop("P05", "Unit commitment and ramp limits hold over the whole history",
     "Committable generators and links operate between minimum and maximum load only while on; start-ups and shut-downs follow from status changes including the state before the horizon; minimum up and down times (with initial history) and ramp limits (with distinct start-up and shut-down ramps) hold, and nothing stricter is imposed. The linearised formulation is a relaxation of the integer one.",
     ["inputs", "histories"], "all parameter combinations, histories before the horizon and partial horizons",
     "Tests fix single small schedules; time coupling makes the property a statement on all histories.",
     [O + "constraints.py"], [("commitment constraints", O + "constraints.py define_operational_constraints_for_committables"), ("ramps", O + "constraints.py define_ramp_limit_constraints")],
     ["status, start_up, shut_down, p after n.optimize()"],
     "runtime monitor: commitment/ramp trace oracle plus reference MILP optimum", "Committable assets with static ramp limits; see DESIGN for dynamic ones.")
prop("P06", "Reported objective is the true cost and the true optimum",
     "The reported objective plus constant equals the total weighted cost (capital, marginal, quadratic, storage, spillage, stand-by, start and stop) of the reported decisions, and that total is minimal over all feasible decisions. A problem is reported infeasible or unbounded only if it is.",
     ["inputs", "configurations"], "all LP, MILP and convex QP problems over one or several periods",
     "Tests compare objectives of fixed examples with stored numbers; a wrong but plausible formulation on other feature combinations passes.",
     [O + "optimize.py", O + "variables.py"], [("objective", O + "optimize.py define_objective"), ("model assembly", O + "optimize.py create_model")],
     ["n.objective, n.objective_constant, status of n.optimize()"],
     "runtime monitor: cost-accounting oracle and independent LP/MILP solve", "Independent reference model solved with SciPy/HiGHS; QPs by first-order optimality.")
prop("P07", "Global constraints bind exactly as declared",
     "Every global constraint (primary energy, operational limit, transmission volume and cost limits, technology capacity limits, per-bus capacity limits, growth limits) holds for the reported decisions with the declared sense, carriers, bus and investment period, and nothing stricter is imposed.",
     ["inputs", "configurations"], "all constraint sets over mixed component classes, carriers, periods and buses",
     "Tests cover each type once with one asset class; alignment across classes, carriers, periods and several simultaneous constraints is unbounded.",
     [O + "global_constraints.py"], [("global constraints", O + "global_constraints.py define_*")],
     ["decisions and n.global_constraints after n.optimize()"],
     "runtime monitor: independent global-constraint oracle plus reference optimum", "Left-hand sides recomputed from reported decisions.")
prop("P08", "Multi-period investment: vintages, weightings and periods",
     "With multi-period investment an asset is available exactly in periods within its lifetime, all operational rules hold in every period, capital costs are counted once per period in which the asset is active and all costs are weighted by the period weightings; the result is optimal for that problem.",
     ["inputs", "configurations"], "all sets of periods, vintages, lifetimes and weightings",
     "Tests use a couple of period layouts; interactions of vintages with storage, ramps, KVL and global constraints are not covered.",
     [O + "optimize.py", O + "constraints.py", "pypsa/descriptors.py", "pypsa/components/abstract.py"], [("activity", "pypsa/components/abstract.py get_active_assets; pypsa/descriptors.py get_activity_mask"), ("period weights", O + "optimize.py define_objective")],
     ["all outputs of n.optimize(multi_investment_periods=True)"],
     "runtime monitor: full reference model per period", "All rows of the reference model re-evaluated.")
prop("P09", "Shadow prices are valid marginal values",
     "Reported marginal prices (per unit of demand, corrected for snapshot and period weights), global-constraint multipliers and bound multipliers are subgradients of the optimal cost: no change of demand, limit or bound yields a cost below the value they predict. Unconstrained generators are dispatched in line with the prices at their bus.",
     ["inputs", "configurations"], "all linear problems, weightings and perturbations",
     "Tests check duals on few examples; sign, weighting and alignment errors surface only with particular weightings, senses or component mixes.",
     [O + "optimize.py"], [("dual write-back", O + "optimize.py assign_duals, post_processing")],
     ["buses_t.marginal_price, global_constraints.mu, *_t.mu_upper/lower"],
     "runtime monitor: subgradient oracle via perturbed reference solves", "Any subgradient accepted at kinks.")
prop("P10", "Rolling-horizon optimisation hands over state correctly",
     "Rolling-horizon optimisation solves windows starting every horizon-minus-overlap snapshots; each window starts from the storage levels, commitment history and dispatch its predecessors reached just before it, is optimal for that window, and the final result keeps, for every snapshot, the decision of the last window covering it.",
     ["histories", "configurations"], "all horizons, overlaps, snapshot ranges and initial states",
     "Tests roll one or two networks without comparing each window with its predecessors' state.",
     [O + "abstract.py", O + "constraints.py"], [("window loop", O + "abstract.py optimize_with_rolling_horizon"), ("history of units", O + "constraints.py define_operational_constraints_for_committables, define_ramp_limit_constraints")],
     ["per-window state via extra_functionality, outputs after each window"],
     "runtime monitor: online window monitor with reference optimum per window", "Each window judged with the state observed on entry.")
prop("P11", "Security-constrained optimum is exactly the N-1 secure optimum",
     "With a list of branch outages, security-constrained optimisation yields the cheapest dispatch and capacities for which, besides all base constraints, after each listed single outage the redistributed flows of all remaining branches stay within their limits. Outages of passive branches which are inactive or would split the network are handled without corrupting other constraints.",
     ["inputs", "configurations"], "all networks, outage lists and extendable branch mixes",
     "Tests compare one network; sign and alignment errors of outage factors depend on topology and class mixes.",
     [O + "abstract.py", "pypsa/pf.py"], [("security constraints", O + "abstract.py optimize_security_constrained"), ("outage factors", "pypsa/pf.py calculate_BODF")],
     ["dispatch, flows and objective after n.optimize.optimize_security_constrained()"],
     "runtime monitor: explicit outage simulation oracle plus reference optimum", "Each outage re-simulated by an independent DC flow; exactness via extended reference LP.")
prop("P12", "Near-optimal alternatives are optimal within the cost budget",
     "After a cost optimisation, optimize_mga returns a decision which satisfies all constraints of the network, whose total cost stays within (1 + slack) of the optimum, and which is optimal for the requested weighted sum of capacities and operation (any documented weight form, component, sense) under that budget. It records slack, sense and weights in the metadata and refuses unsolved networks and unknown senses.",
     ["inputs", "configurations"], "all networks, alternative objectives (components, variables, weight forms), senses and slacks",
     "Tests only check that one alternative lowers one capacity; the budget and the alternative objective combine all cost terms, components and index layouts.",
     [O + "abstract.py", "pypsa/statistics/expressions.py"],
     [("MGA", O + "abstract.py optimize_mga"), ("budget", "pypsa/statistics/expressions.py capex, opex, installed_capex")],
     ["decisions, n.meta after n.optimize.optimize_mga()"],
     "runtime monitor: cost budget and alternative-optimum oracle (reference LP with budget row)", "Alternative optimum bracketed by reference solves at budget plus/minus tolerance.")
prop("P14", "Non-linear power flow solves the AC power-flow equations",
     "When the Newton-Raphson power flow reports convergence, reported voltages, branch flows and injections satisfy the network's full AC equations at every bus and snapshot within tolerance: PQ buses inject their given set-points, PV buses keep their voltage set-points, slack (single or distributed with any documented weights) absorbs exactly the mismatch according to its weights, links transfer their set-points with efficiency, and branch losses equal p0+p1. Inactive components take no part.",
     ["inputs", "configurations"], "all topologies, line/transformer types, tap settings, shunts, control modes, slack distributions and snapshots",
     "Tests compare a few grids with reference tools; combinations of taps, shunts, inactivity, several sub-networks and slack weights are open-ended.",
     ["pypsa/pf.py", "pypsa/networks.py"], [("Newton-Raphson", "pypsa/pf.py newton_raphson_sparse, sub_network_pf, _network_prepare_and_run_pf"), ("admittance", "pypsa/pf.py calculate_Y, apply_transformer_types, apply_line_types"), ("bus controls", "pypsa/pf.py find_slack_bus, find_bus_controls")],
     ["return value of n.pf(), buses_t, generators_t, lines_t, transformers_t, links_t"],
     "runtime monitor: AC power-flow residual oracle over random power-flow executions", "Two-port equations written independently from the physical model; areas with DC carriers excluded.")
prop("P15", "Linear power flow balances and obeys linear flow equations",
     "For every snapshot, the linear power flow reports branch flows equal to angle differences (with phase shifts) over effective reactance, balances every bus including links and shunts, lets the slack generator absorb exactly the imbalance, is the same whichever buses are labelled or ordered how, and leaves other set-points as given.",
     ["inputs", "configurations"], "all topologies, AC and DC areas, phase shifters, links with several ports, inactive components and snapshot selections",
     "Tests check fixed grids; the equations must hold for each topology and set-point history.",
     ["pypsa/pf.py"], [("linear power flow", "pypsa/pf.py sub_network_lpf, calculate_B_H, network_lpf"), ("dependent values", "pypsa/pf.py calculate_dependent_values")],
     ["outputs of n.lpf()"],
     "runtime monitor: linear-flow residual oracle", "Residuals recomputed from static inputs by an independent model.")
prop("P16", "PTDF, BODF and contingency flows equal brute-force outages",
     "For each sub-network the reported PTDF maps injections to exactly the linear power flow's branch flows, the BODF column of a non-bridge branch equals the change of flows when this branch is removed, and lpf_contingency reports for each listed outage the flows of a linear power flow with that branch removed, whatever snapshot, outage list or slack.",
     ["inputs", "configurations"], "all connected topologies, branch classes, outages and snapshots",
     "Tests check a single grid; matrices depend on ordering, slack position and several sub-networks.",
     ["pypsa/pf.py", "pypsa/contingency.py"], [("PTDF", "pypsa/pf.py calculate_PTDF"), ("BODF", "pypsa/contingency.py calculate_BODF, network_lpf_contingency")],
     ["sub_network.PTDF, sub_network.BODF, return of n.lpf_contingency()"],
     "runtime monitor: brute-force outage differential oracle", "Every outage re-run by explicit removal and an independent DC solve.")
prop("P17", "Network topology is the true graph of active branches",
     "determine_network_topology partitions the buses into exactly the connected components of the active lines and transformers (in the given investment period), assigns every bus, branch, generator, load and other one-port to its sub-network, and is recomputable after any change of the network. Reported cycles form a basis of each component's cycle space, and graph, adjacency, incidence matrices and branch tables reflect exactly the (active, requested) branches with weights, also for investment periods.",
     ["inputs", "histories"], "all topologies with parallel, inactive and time-limited branches, isolated buses and changes between calls",
     "Tests call the graph functions on one or two networks; partitioning and cycle spaces are statements on every graph and edit history.",
     ["pypsa/graph.py", "pypsa/networks.py", "pypsa/pf.py", "pypsa/components/components.py"], [("sub-networks", "pypsa/networks.py determine_network_topology"), ("matrices", "pypsa/graph.py adjacency_matrix, incidence_matrix, graph"), ("cycle basis", "pypsa/pf.py find_cycles, find_tree")],
     ["n.sub_networks, n.buses.sub_network, SubNetwork members and matrices"],
     "runtime monitor: union-find and rank oracle over topology edits", "Sub-networks, cycle spaces and matrices recomputed independently after each change.")
prop("P18", "Editing a network changes exactly what was asked for",
     "After any history of adding (single, multiple, suffixed, with scalars, sequences, Series, DataFrames or arrays), overwriting, removing and renaming components, the network contains exactly the components, static values, documented defaults, custom attributes and time series which the history implies: existing components are skipped or fully replaced as requested, references follow renames, refused edits change nothing, other components, copies made earlier and other networks are unaffected.",
     ["histories", "inputs"], "all edit histories over all component classes and value forms",
     "Tests add components once in one form; defects arise from sequences (overwrite after series, remove and re-add, additional ports, renames with references).",
     ["pypsa/networks.py", "pypsa/io.py", "pypsa/components/abstract.py", "pypsa/components/types.py", "pypsa/descriptors.py"],
     [("edits", "pypsa/networks.py add, remove, rename_component_names"), ("import", "pypsa/io.py _import_components_from_df, _import_series_from_df"), ("ports", "pypsa/descriptors.py update_linkports_component_attrs")],
     ["n.static(c), n.dynamic(c), defaults of new networks, exceptions"],
     "runtime monitor: model-based checking of edit histories against a dictionary model", "State compared in full after every edit; defaults read from the documented attribute tables.")
prop("P19", "Changing snapshots or periods keeps series and weightings aligned",
     "After any sequence of setting snapshots, investment periods and weightings, every time series has exactly the network's snapshots as index, keeps its value at each retained snapshot, takes the documented default (or the given default weighting, or the elapsed time if requested) at new ones, and is repeated for every investment period when periods are introduced; timesteps, periods and weightings describe the same snapshots, and invalid indexes or weightings are refused without effect.",
     ["histories", "inputs"], "all sequences of index changes over integer, text, time and multi-level snapshots",
     "Tests set snapshots once; reindexing, period expansion and weights interact over histories of changes.",
     ["pypsa/networks.py"], [("snapshots", "pypsa/networks.py set_snapshots, snapshot_weightings"), ("periods", "pypsa/networks.py set_investment_periods, investment_period_weightings, timesteps, periods")],
     ["n.snapshots, n.*_t, n.snapshot_weightings, n.investment_period_weightings"],
     "runtime monitor: model-based checking of index-change histories", "All series compared with a model keyed by snapshot after every change.")
prop("P20", "Copies, slices and merges carry the right content and share nothing",
     "A copy equals its source; a copy for selected snapshots or periods, a slice by buses (and snapshots) and a merge of disjoint networks contain exactly the selected or combined components, attributes, time series and weightings; none of these operations alters its inputs, and later changes of one network never show up in another. Merges of networks with overlapping names or differing snapshots or weightings are refused without effect.",
     ["inputs", "histories"], "all network contents, selections and later edits",
     "Tests copy, slice and merge one example and compare sizes; content and isolation depend on every attribute, index form and series.",
     ["pypsa/networks.py", "pypsa/io.py", "pypsa/common.py"], [("copy", "pypsa/networks.py copy"), ("slice", "pypsa/networks.py __getitem__"), ("merge", "pypsa/io.py merge; pypsa/networks.py __add__")],
     ["content of the resulting and the source networks before and after alterations"],
     "runtime monitor: content oracle and mutation-isolation probe on random networks", "Neutral views of content compared; every array altered in place to detect sharing.")
prop("P21", "A stored network is read back with the same content",
     "Exporting any network to netCDF (file or dataset, with compression or single precision), HDF5, a CSV folder or Excel and importing it again yields a network with the same snapshots, weightings, investment periods, name, meta data, coordinate reference system, components in the same order, static values (including custom attributes and text which looks like numbers or missing values), shapes, and effective time series, up to floating-point formatting and documented omissions; skip_time and standard-type options do what they say, and chains of formats preserve the content.",
     ["inputs"], "all network contents in all formats and options",
     "Tests round-trip a few tidy networks; losses depend on names, text, dtypes, blanks, defaults, index kinds and periods.",
     ["pypsa/io.py"], [("export", "pypsa/io.py _export_to_exporter and exporters"), ("import", "pypsa/io.py _import_from_importer and importers")],
     ["content of the exported and the imported network"],
     "runtime monitor: content differential on random networks written and read in all formats", "Neutral views compared value by value; absent values resolved by documented defaults.")
prop("P22", "Exports replace what was stored before and change nothing else",
     "Exporting to an existing netCDF, HDF5 or Excel file or CSV folder leaves exactly the content of the last exported network there (no stale components, series, meta data or snapshots), is repeatable, leaves the exported network (values, index labels, dtypes) and foreign files untouched; importing changes neither the file nor the dataset, and imported networks share no data with their source.",
     ["histories", "inputs"], "all sequences of exports of changing networks to one target",
     "Tests export to fresh targets; stale data only shows after a history of exports with shrinking content.",
     ["pypsa/io.py"], [("export", "pypsa/io.py remove_static, remove_series, save_*"), ("import", "pypsa/io.py importers")],
     ["network before/after export, target files, imported content"],
     "runtime monitor: export-history differential with purity probes", "Every export of a history is read back and compared; inputs compared before and after.")
prop("P25", "Statistics equal their definitions",
     "Capital, operational and system costs, installed, optimal and expanded capacities, supply, withdrawal, energy balance, transmission, curtailment, capacity factors, revenue and market values equal the sums over assets, ports, periods and weighted snapshots by which they are defined, for every selection of components, carriers, bus carriers, ports, grouping and aggregation over time or components; supply minus withdrawal is the balance, nodal balances of optimised networks vanish, and capital plus operational expenditure equals the optimal objective plus its constant.",
     ["inputs"], "all result contents and argument combinations, with and without investment periods",
     "Tests check that calls return something on one network; the values depend on the interplay of filters, ports, signs, weightings, activity and groupings.",
     ["pypsa/statistics/expressions.py", "pypsa/statistics/abstract.py", "pypsa/statistics/grouping.py"], [("statistics", "pypsa/statistics/expressions.py StatisticsAccessor"), ("aggregation", "pypsa/statistics/abstract.py"), ("groupers", "pypsa/statistics/grouping.py")],
     ["n.statistics.* results on filled and optimised networks"],
     "runtime monitor: definition-level oracle over random results, filters and groupings", "Each statistic recomputed asset by asset, port by port, snapshot by snapshot.")
prop("P27", "Spatial clustering is a partition and represents exactly the content",
     "Busmaps (k-means, hierarchical, modularity, stubs) assign every requested bus to exactly one of the requested number of clusters, connected where the method promises it. The clustered network has exactly one bus per cluster and one line per pair of connected clusters; each aggregated value is the documented aggregation (sum, mean, extreme, capacity-, length- or voltage-weighted average, user strategy) of exactly its members, statically and in every snapshot; totals of load, inflow, capacity and available power per cluster are conserved; everything not aggregated is carried over unchanged on the mapped buses; disagreeing members are refused; the source network is neither changed nor shared.",
     ["inputs"], "networks, busmaps, strategies and options of the clustering functions",
     "Tests aggregate one small example network with a single cluster; which members, weights, factors and series end up in a cluster depends on the interplay of busmap, grouping, sparse series and options.",
     ["pypsa/clustering/spatial.py", "pypsa/clustering/__init__.py"], [("clustered network", "pypsa/clustering/spatial.py get_clustering_from_busmap"), ("one ports", "pypsa/clustering/spatial.py aggregateoneport"), ("lines", "pypsa/clustering/spatial.py aggregatelines"), ("busmaps", "pypsa/clustering/spatial.py busmap_by_*")],
     ["busmap", "linemap", "components and series of the clustered network", "source network before and after"],
     "runtime monitor: clustered networks against plain-loop aggregation, conservation and graph oracles", "Every cluster, line group, link and series point recomputed from the source.")
prop("P13", "Transmission losses follow the tangent envelope of the loss parabola",
     "With transmission losses in k tangents, every active passive branch in every optimised snapshot reports losses (sum of its end flows) not below any of the 2k tangents of r*f^2 at equidistant loadings and not above the loss at full loading; flow and loss together respect the rating, half of the loss is drawn at either end in the nodal balance, inactive branches lose nothing, and the solution is a cost optimum of exactly that problem.",
     ["inputs"], "all networks with lines and transformers, fixed or extendable, numbers of tangents, snapshot subsets and investment periods",
     "Tests compare losses of one line network for one tangent number; signs, slopes, bounds of extendable branches and the balance at both ends need many networks.",
     ["pypsa/optimization/constraints.py", "pypsa/optimization/optimize.py"], [("loss tangents", "pypsa/optimization/constraints.py define_loss_constraints"), ("nodal balance", "pypsa/optimization/constraints.py define_nodal_balance_constraints"), ("reported flows", "pypsa/optimization/optimize.py assign_solution")],
     ["lines_t.p0/p1", "transformers_t.p0/p1", "objective"],
     "runtime monitor: independent LP reference and per-branch envelope oracle", "Rows, optimum and envelope recomputed from the input for every branch and snapshot.")
prop("P28", "Consistency checks report every inconsistency, exactly by its own check",
     "Each named consistency check raises ConsistencyError in strict mode exactly if the network fulfils its documented condition (unknown buses or carriers, unconnected buses, zero impedances or ratings, misaligned series, contradictory or missing limits, committable and extendable assets, generator histories and energy sums, missing values, wrong data types, unknown investment periods or shape references); without strictness nothing is raised, every offender is named in a warning and a consistent network is silent; combinations and 'all' raise exactly if one selected check does; unknown check names are refused; and the network's input is not changed.",
     ["inputs"], "all networks with any combination of inconsistencies and strictness selections",
     "Tests plant one inconsistency each into one network; false alarms and misses depend on combinations, ports, sparse series, types and optional columns.",
     ["pypsa/consistency.py"], [("checks", "pypsa/consistency.py consistency_check, check_*")],
     ["exception or warnings of n.consistency_check", "network content before and after"],
     "runtime monitor: condition oracle over networks with planted inconsistencies", "Strict run of every check compared with a plain evaluation of its condition.")
