#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of its text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=[observe], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Mass balance: flows conserve water and storage follows its inflow/outflow",
  "In every timestep and scenario of every run, the flow entering each link node equals the flow leaving it, the reported in-flow and out-flow of every node equal the sums of the flows on its incoming and outgoing edges, and each storage volume equals its previous volume plus (inflow minus outflow) times the timestep length in days, starting from the configured initial volume. Volumes stay within the node's minimum and maximum volume, and every volume- or flow-based metric (proportional volume, maximum volume, aggregated storage totals, multi-node sums) reports the value implied by those flows and volumes.",
  ["inputs", "configurations", "histories"],
  "for all networks of inputs, links, storages and outputs, all bound/cost values (literal, constant or time-varying), initial volumes, timestep lengths and numbers of timesteps",
  "Existing tests compare final numbers of a few fixed networks; the guarantee quantifies over all topologies and multi-step histories, in which wrong accounting may cancel out or be hidden by bounds.",
  ["pywr-core/src/network.rs", "pywr-core/src/state/mod.rs", "pywr-core/src/state/storage.rs", "pywr-core/src/state/flow.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/metric.rs"],
  [("edge flow to node state", "pywr-core/src/state/mod.rs NetworkState::add_flow"),
   ("storage update", "pywr-core/src/state/storage.rs StorageState"),
   ("mass balance rows", "pywr-core/src/solvers/builder.rs create_mass_balance_constraints"),
   ("metrics", "pywr-core/src/metric.rs MetricF64::get_value")],
  "State returned by a model run: node flows, edge flows, volumes and metric values after every step",
  [("storage volume", "water held at the end of a timestep", "pywr-core/src/state/storage.rs")])

p("C02", "Every allocation respects every flow, storage and relationship constraint",
  "In every timestep and scenario the allocated flows respect each node's minimum and maximum flow, each aggregated node's total minimum and maximum flow, each proportional, ratio or coefficient relationship between nodes, and the volume limits of each storage, using the values those limits take in that timestep whether they are literals, constant parameters or time-varying parameters. A set of constraints that no allocation can satisfy is reported as an error instead of an allocation, and a set that can be satisfied never is.",
  ["inputs", "configurations", "histories"],
  "for all small networks, combinations of constraint kinds on the same or overlapping nodes, value kinds and sequences of time-varying values",
  "Tests exercise one constraint at a time with one value; the solver matrix is built once and patched every timestep, so errors appear only for combinations of constraints and value sequences.",
  ["pywr-core/src/solvers/builder.rs", "pywr-core/src/aggregated_node.rs", "pywr-core/src/node.rs", "pywr-core/src/network.rs"],
  [("row building and updating", "pywr-core/src/solvers/builder.rs SolverBuilder"),
   ("factor pairs", "pywr-core/src/aggregated_node.rs Factors/NodeFactorPair"),
   ("flow limits", "pywr-core/src/node.rs FlowConstraints")],
  "flows and volumes after every step, and Err results of step/run")

p("C03", "Allocation is least-cost, and every solver agrees on the optimum",
  "In every timestep and scenario the reported allocation has the smallest total cost of all feasible allocations, where total cost is the sum over nodes of flow through the node times the node's cost (for storages, inflow minus outflow times the cost), using the costs of that timestep and including the costs of virtual storages attached to a node when it is configured to aggregate them by sum, maximum or minimum. All solvers that accept a model reach the same optimal total cost.",
  ["inputs", "configurations", "histories"],
  "for all small networks, integer cost and bound assignments, timesteps and available solvers",
  "Tests check a few allocations with unique optima; optimality is a statement about all other allocations of all networks, including degenerate ties.",
  ["pywr-core/src/solvers/builder.rs", "pywr-core/src/solvers/highs/mod.rs", "pywr-core/src/solvers/microlp/mod.rs", "pywr-core/src/solvers/ipm_simd/mod.rs", "pywr-core/src/edge.rs", "pywr-core/src/node.rs"],
  [("edge cost", "pywr-core/src/edge.rs Edge::cost"), ("objective update", "pywr-core/src/solvers/builder.rs update_edge_objectives"), ("solver drivers", "pywr-core/src/solvers/*/mod.rs")],
  "total cost of the reported edge flows versus an exact rational optimum")

p("C04", "Mutual exclusivity limits how many members are active, and nothing else",
  "In every timestep and scenario, the number of members of an exclusive set that carry flow is at most the set's maximum and, where a minimum is configured, at least that minimum members are enabled within their own flow limits; a disabled member carries exactly no flow, and an enabled one keeps its own minimum and maximum flow, whether these are literals or vary in time. Among the allocations meeting this the least-cost one is selected.",
  ["inputs", "configurations", "histories"],
  "for all exclusive sets of up to a few members, active-count limits, member bounds (constant and time-varying), costs and nested sets",
  "Tests use two or three members with constant bounds; the statement covers all bound kinds and histories of changing bounds.",
  ["pywr-core/src/aggregated_node.rs", "pywr-core/src/solvers/builder.rs"],
  [("exclusivity rows and binaries", "pywr-core/src/solvers/builder.rs"), ("Exclusivity", "pywr-core/src/aggregated_node.rs")],
  "flows after every step versus exhaustive enumeration of active subsets")

p("C05", "Virtual storages deplete with factored flow and reset exactly when configured",
  "The volume of a virtual storage falls each timestep by the sum of its members' flows times their factors and the timestep length in days, never leaves its minimum-to-maximum range by allocation, and limits its members' flow only inside its active period. It is reset to its configured volume exactly at the boundaries its reset rule names (never, a day of the year, or a number of months), and with a rolling window the volume spent in a timestep is returned once it is older than the window.",
  ["histories", "configurations", "inputs"],
  "for all reset rules, active periods, windows, factors, start dates, timestep lengths and histories of demanded flow",
  "Tests run a handful of date ranges with daily steps; resets depend on the date arithmetic between consecutive timesteps for all start dates and step lengths.",
  ["pywr-core/src/virtual_storage.rs", "pywr-core/src/state/storage.rs", "pywr-core/src/solvers/builder.rs"],
  [("reset logic", "pywr-core/src/virtual_storage.rs VirtualStorage::before"), ("rolling window", "pywr-core/src/state/storage.rs VirtualStorageState"), ("active period", "pywr-core/src/virtual_storage.rs VirtualStorageActivePeriod")],
  "virtual storage volume before and after every step, and member flows",
  [("virtual storage volume and history", "remaining licence volume", "pywr-core/src/state/storage.rs")])

p("C06", "Scenarios are independent: each behaves as if it were simulated alone",
  "The flows, volumes, parameter values and recorded outputs of a scenario in a multi-scenario run equal those obtained by running a model holding only that scenario's inputs, whatever the number and content of the other scenarios. No state (initial volumes, delays, histories, solver state) leaks from one scenario to another.",
  ["configurations", "inputs", "histories"],
  "for all assignments of inputs to scenarios, scenario counts, orders and subsets",
  "Tests run one or two scenarios with inputs that hardly differ; leakage depends on which scenario precedes which and on reuse of solver and parameter state.",
  ["pywr-core/src/network.rs", "pywr-core/src/scenario.rs", "pywr-core/src/state/mod.rs", "pywr-core/src/solvers/mod.rs"],
  [("per-scenario state and solver", "pywr-core/src/network.rs NetworkState, step/step_par"), ("scenario indexed inputs", "pywr-core/src/parameters/array.rs, constant_scenario.rs")],
  "all node/parameter state of each scenario index in joint and single-scenario runs")

p("C07", "Execution mode and thread schedule never change results",
  "Running a model serially, in parallel with any number of threads under any interleaving of scenario computations, step by step or in one call, or repeatedly, yields identical flows, volumes, parameter values and recorded outputs, in the same order. An error in any scenario is returned to the caller in every mode rather than crashing or being lost.",
  ["schedules", "configurations", "histories"],
  "for all interleavings of per-scenario work, thread counts, and step/run modes",
  "Tests observe whichever schedule the machine happens to produce; equivalence quantifies over all schedules and all modes.",
  ["pywr-core/src/network.rs", "pywr-core/src/models/simple.rs", "pywr-core/src/models/multi.rs", "pywr-core/src/solvers/builder.rs"],
  [("serial and parallel step", "pywr-core/src/network.rs step/step_par/step_multi_scenario"), ("run loops", "pywr-core/src/models/simple.rs, multi.rs")],
  "complete state after each step and recorder output of each mode, under a controlled scheduler")

p("C08", "The time domain partitions the simulation period into the requested timesteps",
  "The timesteps of a simulation are contiguous, strictly increasing, indexed consecutively from zero, start at the configured start, all have the configured duration, and include every step whose start is not after the configured end. Invalid periods (end before start, zero-length or unparseable steps) are rejected, and slices, offsets and calendar lookups of a timestep agree with the proleptic Gregorian calendar.",
  ["inputs", "configurations"],
  "for all start/end instants, durations in hours, days or frequency strings, including leap years and month/year ends",
  "Tests use a few periods; boundary behaviour depends on the relation of start, end and duration and on leap days.",
  ["pywr-core/src/timestep.rs", "pywr-schema/src/model.rs"],
  [("timestep generation", "pywr-core/src/timestep.rs Timestepper::timesteps"), ("frequency parsing", "pywr-core/src/timestep.rs")],
  "TimeDomain::timesteps and the schema timestepper")

p("C09", "Scenario domains enumerate exactly the requested combinations, in order",
  "The simulated scenarios are exactly the Cartesian product of the groups' members, last group varying fastest, restricted to the given subsets, or exactly the explicitly listed combinations in the order given; each scenario keeps the group index and label of the full definition and simulation identifiers run consecutively from zero. Out-of-range or malformed subsets, labels or combinations, and duplicated group names, are rejected.",
  ["configurations", "inputs"],
  "for all group counts and sizes, subsets (slices, indices, labels), labels and combination lists up to a size",
  "Tests cover two or three group layouts; the index arithmetic must be right for every mix of sizes and subsets.",
  ["pywr-core/src/scenario.rs", "pywr-schema/src/model.rs"],
  [("domain building", "pywr-core/src/scenario.rs ScenarioDomainBuilder/ScenarioDomain")],
  "ScenarioDomain indices, group indices, labels, and Err results of building")

p("C10", "Parameter results do not depend on definition order; bad references are errors",
  "A parameter always sees the current-timestep values of the parameters it depends on, so any order in which parameters are defined gives the same results in every timestep. A dependency cycle, a reference to something undefined or two definitions with one name make model building fail with an error.",
  ["programs", "configurations"],
  "for all dependency graphs over a few parameters of each kind (constant, simple, general, integer, multi-valued) and all definition orders",
  "Tests use one or two definition orders; the claim quantifies over all graphs and permutations.",
  ["pywr-core/src/parameters/mod.rs", "pywr-core/src/network.rs", "pywr-schema/src/network.rs"],
  [("parameter resolution fixpoint", "pywr-core/src/parameters/mod.rs ParameterCollection"), ("constant/simple promotion", "pywr-core/src/parameters/*")],
  "parameter values per step for each permutation, and Err results of building")

p("C11", "Calendar profiles return the value of the right day, week, month or hour",
  "For every date and time, daily, monthly, weekly, diurnal, uniform-drawdown and radial-basis profiles return the value their definition prescribes for that instant: the slot of that day of year (leap days included), month, week or hour, with the configured interpolation, or the drawdown fraction since the last reset day.",
  ["inputs", "configurations"],
  "for every instant of leap and non-leap years, every profile kind, interpolation mode and reset day",
  "Tests check a few dates or one year; off-by-one errors live at leap days, year ends and interpolation ends.",
  ["pywr-core/src/parameters/profiles"],
  [("profiles", "pywr-core/src/parameters/profiles/*.rs")],
  "profile parameter value at every timestep of a run over all day/hour instants of the calendar classes")

p("C12", "Control curves and interpolation select the right band and value",
  "For every storage level, each control-curve parameter returns the value, index, interpolated value or apportionment prescribed by the first curve at or below the level (or by the final band when none is), interpolating linearly between adjacent curves, with values at the full, empty and curve levels exactly those configured. Interpolation of a metric over a table of points returns the configured value at each point, linear values in between and the end values or an error outside, as configured.",
  ["inputs", "histories", "configurations"],
  "for all storage levels relative to curves (above, equal, between, below), curve sequences (constant and time-varying), and all point tables up to a size",
  "Tests evaluate few levels of one curve set; equality with a curve and coincident curves are the corner cases.",
  ["pywr-core/src/parameters/control_curves", "pywr-core/src/parameters/interpolate.rs", "pywr-core/src/parameters/interpolated.rs"],
  [("control curves", "pywr-core/src/parameters/control_curves/*.rs"), ("interpolate", "pywr-core/src/parameters/interpolate.rs")],
  "parameter values on every enumerated level/curve configuration")

p("C13", "Parameters with memory follow their specified state machine",
  "Over every history of inputs, parameters with memory return what their definition gives: a delay returns its input from that many timesteps ago, or the initial value before that; a rolling aggregation covers exactly the last window of values; latching thresholds and switches change only on their configured transitions; routing conserves its recurrence; and deficits equal requested minus delivered flow. The state starts afresh for each run and is kept separately for each scenario.",
  ["histories", "inputs"],
  "for all input histories over a small alphabet up to a depth, and all parameter settings",
  "Tests use one history per parameter; a state machine is right only if every input sequence is handled.",
  ["pywr-core/src/parameters/delay.rs", "pywr-core/src/parameters/rolling.rs", "pywr-core/src/parameters/threshold.rs", "pywr-core/src/parameters/multi_threshold.rs", "pywr-core/src/parameters/asymmetric.rs", "pywr-core/src/parameters/muskingum.rs", "pywr-core/src/parameters/deficit.rs"],
  [("internal state", "pywr-core/src/parameters/*.rs")],
  "parameter value at every step of every enumerated history",
  [("parameter internal state", "memory carried between timesteps per scenario", "pywr-core/src/state/mod.rs")])

p("C14", "Arithmetic and aggregating parameters compute their definition for every input",
  "Aggregated (sum, product, mean, minimum, maximum, counts, any/all), difference, division, max, min, negated, offset, polynomial, discount-factor, indexed-array and hydropower parameters return the mathematical value of their definition for every combination of input values, whether each input is a literal, a constant parameter, or a time-varying one. Undefined results such as division by zero are reported as errors.",
  ["inputs", "configurations"],
  "for all tuples of input values (negative, zero, positive) and input kinds up to an arity",
  "Tests use one tuple per function; the same definition has separate constant, simple and general implementations which must agree on all of them.",
  ["pywr-core/src/parameters", "pywr-core/src/agg_funcs/mod.rs", "pywr-core/src/utils.rs"],
  [("aggregation functions", "pywr-core/src/agg_funcs/mod.rs"), ("const/simple/general compute", "pywr-core/src/parameters/aggregated.rs")],
  "parameter values for each tuple and each input kind")

p("C15", "Array and scenario inputs deliver the right element for each step and scenario",
  "Time-series arrays return the element of the current timestep shifted by the configured offset and held at the ends of the data, and scenario arrays return the element of the scenario's own position in its group, including when only a subset of the group is simulated. Supplying data whose shape does not match is an error, never a value from a wrong position.",
  ["inputs", "configurations"],
  "for all array shapes, offsets, scenario group layouts and subsets up to a size",
  "Tests use one layout; index arithmetic must hold for every offset, subset and group position.",
  ["pywr-core/src/parameters/array.rs", "pywr-core/src/parameters/constant_scenario.rs", "pywr-core/src/scenario.rs"],
  [("array indexing", "pywr-core/src/parameters/array.rs"), ("scenario indexing", "pywr-core/src/scenario.rs ScenarioIndex")],
  "parameter value per (timestep, scenario)")

p("C16", "Periodic aggregation of outputs covers each period exactly once",
  "For every sequence of recorded values, an aggregation to days, months, years or whole simulation (also nested) yields one value per period, each equal to the configured function (sum, mean, minimum, maximum, count or duration-weighted) of exactly the values falling in that period, weighted by their duration within it, including the last period, even when it is incomplete. Boolean-event aggregations and the final period are treated the same way as all others.",
  ["histories", "inputs", "configurations"],
  "for all value histories over a small alphabet, start dates around period boundaries, step lengths, frequencies and aggregation functions",
  "Tests aggregate one or two series; period boundaries and the finalisation path depend on start date, step and nesting.",
  ["pywr-core/src/recorders/aggregator", "pywr-core/src/recorders/metric_set.rs", "pywr-core/src/recorders/memory.rs"],
  [("aggregator state machine", "pywr-core/src/recorders/aggregator/mod.rs")],
  "period values returned by the aggregator and recorder",
  [("aggregator state", "values accumulated for the current period", "pywr-core/src/recorders/aggregator/mod.rs")])

p("C17", "Outputs record every value once, under the right name, time and scenario",
  "Every output (in memory, CSV wide, CSV long, HDF5) of a metric set contains exactly one value for each metric, timestep and scenario, equal to the value of that metric in that timestep and scenario, and labelled with that metric, time and scenario; all outputs of the same set agree. In-memory summary aggregations equal the configured function over exactly those values.",
  ["configurations", "histories", "inputs"],
  "for all combinations of metrics, scenario layouts, numbers of timesteps, output kinds and options",
  "Tests compare one fixture per format; column order, scenario labels and time stamps must be right for every layout.",
  ["pywr-core/src/recorders/csv.rs", "pywr-core/src/recorders/memory.rs", "pywr-core/src/recorders/metric_set.rs", "pywr-core/src/recorders/hdf.rs"],
  [("recorders", "pywr-core/src/recorders/*.rs")],
  "contents of written files and in-memory recorder results")

p("C18", "Inter-network transfers carry the right network's value of the right time",
  "In a multi-network model, a value transferred from a network solved earlier in the same timestep is that network's value for this timestep, one from a network solved later is its value of the previous timestep, and on the first timestep a configured initial value is used. Each scenario receives its own scenario's values, and the networks otherwise behave as they would alone.",
  ["configurations", "histories", "inputs"],
  "for all orders of networks, transfer graphs, initial values, scenarios and input histories up to a depth",
  "Tests use one two-network chain; the timing rule must hold for every transfer direction and timestep.",
  ["pywr-core/src/models/multi.rs", "pywr-core/src/network.rs", "pywr-schema/src/model.rs"],
  [("inter-network transfer", "pywr-core/src/models/multi.rs compute_inter_network_transfers")],
  "transferred values and flows of each network at each timestep")

p("C19", "Schema nodes behave as documented whatever optional parts are used",
  "For every combination of its optional attributes, each schema node type (catchment, input, link, output, loss link, piecewise link, piecewise storage, reservoir, river, river gauge, river split, delay, abstraction, water treatment works, turbine, virtual storage) builds and its flows and attributes follow its documentation: net, gross, loss and compensation flows, tiered costs and flow limits, storage zones and splits hold in every timestep.",
  ["configurations", "inputs", "histories"],
  "for all combinations of the optional attributes of each node type over a small value set, and upstream/downstream conditions",
  "Tests cover one or two configurations per node type; the internal sub-network differs for each combination.",
  ["pywr-schema/src/nodes"],
  [("add_to_model / set_constraints / create_metric", "pywr-schema/src/nodes/*.rs"), ("slots", "pywr-schema/src/nodes/mod.rs")],
  "node metrics of schema models after each step versus an independent description of each node")

p("C20", "Model documents survive a round trip and every reference is found or rejected",
  "Reading a model document and writing it back gives a document with the same meaning, which builds a model giving the same results. Names are unique and every reference (node, sub-node, parameter, table, time series, metric set) resolves to the one thing it names or makes loading fail with an error, and visiting or changing the file paths or metrics of a document reaches every one of them exactly once.",
  ["configurations", "programs"],
  "for all schema component types, presence/absence of each optional attribute, and all positions where a reference or path can be wrong",
  "Tests round-trip fixed documents; the claim is over all component types, optional attributes and reference positions.",
  ["pywr-schema/src/network.rs", "pywr-schema/src/model.rs", "pywr-schema/src/metric.rs", "pywr-schema/src/visit.rs", "pywr-schema-macros/src/lib.rs"],
  [("serde derive of schema types", "pywr-schema/src"), ("visit_paths/visit_metrics", "pywr-schema/src/visit.rs")],
  "parsed/serialised documents, loading errors, visited paths and metrics")

p("C21", "Time series are aligned and resampled so each timestep gets its own data",
  "Loading a time series for a model gives each timestep the value of the data for that period: data starting earlier or ending later is trimmed, finer data is averaged over each timestep, and coarser data is held. Data with no value for some timestep is rejected rather than shifted or padded, and every reference gets the series and columns it names.",
  ["inputs", "configurations"],
  "for all data start offsets, lengths and resolutions relative to the model's timesteps up to a size",
  "Tests cover daily to weekly and the reverse at aligned dates; misalignment can occur for any offset or length.",
  ["pywr-schema/src/timeseries"],
  [("align_and_resample", "pywr-schema/src/timeseries/align_and_resample.rs")],
  "value of the time-series parameter at each timestep and loading errors")

p("C22", "Table lookups return the cell addressed by their keys or fail",
  "A value looked up in a data table is the cell whose row and column headings equal the given keys, for any number of supported keys and for scalars and arrays alike. A missing or surplus key, an unsupported layout or a malformed cell is an error and never another cell's value.",
  ["inputs", "configurations"],
  "for all table shapes, index layouts (rows, columns, both), key counts and key lists up to a size",
  "Tests read one or two tables; every number of key levels has its own code path.",
  ["pywr-schema/src/data_tables"],
  [("scalar tables", "pywr-schema/src/data_tables/scalar.rs"), ("array tables", "pywr-schema/src/data_tables/vec.rs")],
  "constants obtained from tables in built models, and loading errors")

p("C23", "Version 1 documents convert without silently losing or altering content",
  "Converting a version 1 model never fails outright: it gives a version 2 model and a list of conversion errors, without a panic. The time-stepper, and each scenario group, node, edge, parameter and table, either has its counterpart in the version 2 model, of the corresponding type and with the same values and references, or is named in the errors: no attribute that affects the simulated results is dropped, altered or made up without an error. Parameters and timeseries given inline are extracted, once each, under names that nothing else has, and the reference left in their place is to them. A valid model that converts without an error builds. (Recorders, and the settings of optimisation variables, are outside this.)",
  ["programs", "configurations"],
  "for all version 1 node, parameter, edge, table and scenario kinds with each attribute present or absent and given as each kind of value",
  "Tests convert a few fixture documents; loss of an attribute shows only where it is used.",
  ["pywr-schema/src/v1.rs", "pywr-schema/src/network.rs", "pywr-schema/src/model.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters", "pywr-schema/src/timeseries"],
  [("from_v1 conversions", "pywr-schema/src/**")],
  "converted document and reported conversion errors")

p("C24", "The interior-point solvers' linear algebra is exact and converges to the optimum",
  "For every sparse matrix, the transpose, products, normal matrix and Cholesky factorisation used by the interior-point solver equal their dense mathematical definitions, and the factorisation solves its linear system. For every feasible bounded problem whose feasible region and dual both have a strict interior, the solver stops with a feasible point whose objective is within tolerance of the optimum, independently in each vector lane: the result of a lane does not depend on the problems in the other lanes, nor on what the solver solved before.",
  ["inputs"],
  "for all small sparse matrices (every sparsity pattern up to a size) and all small bounded linear programs over a coefficient set",
  "Tests factorise two matrices and solve few problems; correctness depends on every sparsity pattern.",
  ["ipm-common/src", "ipm-simd/src"],
  [("sparse matrix and Cholesky symbolic analysis", "ipm-common/src/lib.rs"), ("path following", "ipm-simd/src")],
  "results of the public matrix and solver functions against dense arithmetic")

p("C25", "Checksum verification accepts exactly the unmodified file",
  "A file guarded by a checksum loads if and only if its content has that checksum under the named algorithm, for every content, algorithm and letter case of the recorded digest. Any change of content, truncation or extension makes loading fail before its data is used.",
  ["inputs", "fault_sequences"],
  "for all single-byte corruptions, truncations and extensions of small files, and all digest forms",
  "Tests check one matching and one mismatching file.",
  ["pywr-schema/src/digest.rs", "pywr-schema/src/timeseries", "pywr-schema/src/data_tables"],
  [("checksum comparison", "pywr-schema/src/digest.rs")],
  "loading result for each corrupted file")

p("C26", "Invalid models are rejected with an error, never a crash or silent acceptance",
  "Any model whose structure is invalid (duplicate or missing nodes, parameters or metric sets, impossible connections, wrong factor counts, invalid dates or sizes, malformed documents) makes loading, building or running return an error. It never aborts the process and is never silently accepted.",
  ["configurations", "programs", "inputs"],
  "for every single structural defect inserted at every position of small valid models",
  "Tests insert a few defects at one place each.",
  ["pywr-core/src/network.rs", "pywr-core/src/models", "pywr-core/src/node.rs", "pywr-schema/src/network.rs", "pywr-schema/src/model.rs"],
  [("validation in builders", "pywr-core/src/network.rs NetworkBuilder::build")],
  "Err versus Ok/panic of loading, building and running each mutated model")

p("C27", "Variable values set on parameters take effect for exactly the chosen scenarios",
  "Values set through the optimisation-variable interface are what the parameter uses from the next timestep on, transformed and bounded by its activation function, for the scenario it was set for or for all scenarios when none is named, and reading back returns the set values. Setting values of wrong length or on something that has no variables is an error, and other parameters and scenarios are unaffected.",
  ["histories", "configurations", "inputs"],
  "for all sequences of set/step operations up to a depth over parameters, scenarios and values",
  "Tests set a value once; the interface is a history of operations on per-scenario state.",
  ["pywr-core/src/network.rs", "pywr-core/src/parameters/constant.rs", "pywr-core/src/parameters/offset.rs", "pywr-core/src/parameters/profiles", "pywr-core/src/parameters/activation_function.rs"],
  [("variable API", "pywr-core/src/network.rs set_f64_parameter_variable_values")],
  "parameter values and get-variable results after each operation")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
