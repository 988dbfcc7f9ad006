"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=["src/oemof/solph/" + f for f in files],
             mechanism=[dict(name=n, where="src/oemof/solph/" + w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


PI = ["programs", "inputs", "histories"]
WHY = ("The tests solve a few dozen fixed systems and look at one optimum (or at the number of variables) of each; "
       "whether a constraint is exact for every plan of every system, not only at that optimum, is outside their reach. ")

prop("C01", "Every balanced bus balances in every time step",
     "In every operation the model admits, the energy entering a balanced bus equals the energy leaving it in every time step, "
     "counting every flow connected to the bus and nothing else. A bus declared unbalanced imposes no condition, and balancing excludes no "
     "operation that satisfies all stated limits.",
     PI, "All systems of buses and components, all assignments of values to all flows over all time steps, single- and multi-period, "
     "independent of the order in which nodes were added.",
     WHY + "A bus that loses a connected flow, a period or a time step is invisible as long as the sampled optimum does not use it.",
     ["buses/_bus.py", "_models.py"],
     [("bus balance constraint", "buses/_bus.py:BusBlock._create"), ("flow set", "_models.py:Model._add_parent_block_sets")],
     ["flow[i, o, t] of any feasible point of the built model"])

prop("C02", "Flows stay within their declared limits, and only within those",
     "A flow with a nominal capacity stays, in every time step, between its minimum and its maximum share of that capacity, or follows its fixed profile exactly; "
     "without a negative minimum it is never negative, and if declared integer it takes whole values. A flow past its lifetime in a "
     "multi-period model carries nothing. Every value inside those limits remains possible.",
     PI, "All flow parameter combinations (scalars and time series), all time steps and periods, all values.",
     WHY + "They sample constant limits at the optimum, rarely per-step series, the lower side, or the freedom that has to remain.",
     ["flows/_simple_flow_block.py", "flows/_flow.py", "_models.py"],
     [("bounds and fixing", "_models.py:Model._add_parent_block_variables"), ("integer and lifetime constraints", "flows/_simple_flow_block.py:SimpleFlowBlock._create"),
      ("parameter normalisation", "flows/_flow.py:Flow.__init__")],
     ["flow[i, o, t]"])

prop("C03", "Ramp limits bound every change between consecutive steps",
     "Where a positive or negative gradient limit is set on a flow, the flow rises or falls between two consecutive time steps by at most that share of its nominal capacity "
     "for the later step, and every change within the limits stays possible, in either direction independently. The limit applies across the whole horizon, from the second step on, "
     "and adds no cost.",
     PI, "All limit series (positive, negative, both), all pairs of consecutive steps, all flow values.",
     WHY + "Gradients are tested through one dispatch each; a limit read from the neighbouring step, a missing first or last pair or an unscaled limit would pass.",
     ["flows/_simple_flow_block.py"],
     [("gradient constraints", "flows/_simple_flow_block.py:SimpleFlowBlock._create_constraints")],
     ["flow[i, o, t] - flow[i, o, t - 1]"])

prop("C04", "Full-load times bound the energy of a flow over the horizon",
     "A maximum (minimum) full-load time bounds the energy of the flow over the whole horizon - the sum over all steps of value, step length and occurrence - from above (below) by that many hours at "
     "nominal (or installed) capacity. Any distribution of the energy over the steps that respects the bound stays possible.",
     PI, "All limits, step lengths (also unequal), nominal and invested capacities, all time series of the flow.",
     WHY + "Existing cases use equal hourly steps and a nominal capacity, where many wrong weightings coincide.",
     ["flows/_simple_flow_block.py", "flows/_investment_flow_block.py"],
     [("full-load time, fixed capacity", "flows/_simple_flow_block.py:SimpleFlowBlock"), ("full-load time, investment", "flows/_investment_flow_block.py:InvestmentFlowBlock")],
     ["sum of flow[i, o, t] * timeincrement[t]"])

prop("C05", "A unit that is off carries nothing; statuses and switching are counted right",
     "A flow with on/off operation is zero in every step in which the unit is off and within its load range, relative to nominal or installed capacity, in every step in which it is on. "
     "Each change of status, counted from the initial status, is one start-up or shut-down: their number never exceeds the given maximum, and start-up, shut-down, activity and inactivity costs are charged "
     "for exactly the steps they belong to.",
     PI, "All on/off schedules over the horizon, all combinations of status parameters and cost series, nominal and invested capacity.",
     WHY + "The tests inspect single optimal schedules, mostly with one of the cost terms; the number of schedules is exponential in the horizon.",
     ["flows/_non_convex_flow_block.py", "flows/_invest_non_convex_flow_block.py", "flows/_shared.py", "_options.py"],
     [("status, start-up, shut-down", "flows/_shared.py"), ("load range", "flows/_non_convex_flow_block.py"), ("load range of invested units", "flows/_invest_non_convex_flow_block.py")],
     ["status[i, o, t]", "flow[i, o, t]", "objective"])

prop("C06", "Minimum up- and down-times and the initial status are respected",
     "A unit that starts stays on for at least its minimum up-time and a unit that stops stays off for at least its minimum down-time, wherever in the horizon this happens and up to its end. "
     "A unit that is initially on (off) keeps that status for its minimum up-time (down-time) from the first step. Schedules whose every on- and off-phase reaches its minimum within the horizon are not excluded.",
     ["programs", "schedules", "inputs"], "All on/off schedules of length up to the horizon, all minimum times (scalar and time-dependent), both initial statuses.",
     WHY + "Only a handful of schedules with one minimum time is tested, none where a switch falls on the first or last steps.",
     ["flows/_shared.py", "_options.py", "flows/_non_convex_flow_block.py"],
     [("minimum up- and down-time", "flows/_shared.py"), ("first flexible time step", "_options.py:NonConvex")],
     ["status[i, o, t]"])

prop("C07", "Storage contents follow the energy balance exactly",
     "From each time point to the next, the content of a storage is what it was, reduced by the loss rate compounded over the length of the step, plus what was charged times the charging efficiency, minus what was discharged "
     "divided by the discharging efficiency, minus the fixed losses relative to its capacity and absolute - all for the length of that step. "
     "This holds for every step, for given and for invested capacity, in single- and multi-period models.",
     PI, "All storage parameters (scalars and series), step lengths, charging and discharging time series.",
     WHY + "Fixed tests use hourly steps and constants, where step length and compounding drop out.",
     ["components/_generic_storage.py"],
     [("balance, given capacity", "components/_generic_storage.py:GenericStorageBlock"), ("balance, invested capacity", "components/_generic_storage.py:GenericInvestmentStorageBlock")],
     ["storage_content[n, t], flow[i, n, t], flow[n, o, t]"])

prop("C08", "Storage contents respect limits, the initial level and the balanced condition",
     "At every time point a storage holds between its minimum and maximum share of its capacity; it starts with its initial level if one is given (empty in a multi-period model with investment), and a balanced storage ends with what it started with. "
     "Fixed ratios between the power and the capacity of a storage hold in every period, and above the saturation threshold the charging power falls linearly as declared. Every content inside these limits stays possible.",
     PI, "All level limits (scalars and series), initial levels, balanced or not, fixed or invested capacity, all time points.",
     WHY + "Boundary time points (first, last, the one after the last step) are hit by few tests, with constant limits.",
     ["components/_generic_storage.py"],
     [("level bounds and balanced constraint", "components/_generic_storage.py:GenericStorageBlock"), ("level limits of invested storages", "components/_generic_storage.py:GenericInvestmentStorageBlock"),
      ("power-capacity coupling", "components/_generic_storage.py")],
     ["storage_content[n, t]"])

prop("C09", "Converters and links keep their conversion ratios in every step",
     "For each pair of an input and an output of a converter, input over its conversion factor equals output over its conversion factor in every time step; each connection of a link delivers its input times its factor, independently of the other connections. "
     "Factors may vary in time and default to one; no other condition is imposed.",
     PI, "All numbers of inputs and outputs, all factors and factor series, all time steps and flow values.",
     WHY + "Tested with one or two pairs and constant factors; a pair or a step left out would not show.",
     ["components/_converter.py", "components/_link.py"],
     [("converter relation", "components/_converter.py:ConverterBlock"), ("link relation", "components/_link.py:LinkBlock")],
     ["flow[i, n, t], flow[n, o, t]"])

prop("C10", "Part-load components follow their characteristic line",
     "While an offset converter is on, its other flow is the declared affine function of the flow with on/off operation, and it is zero while the unit is off; the helper that turns part-load efficiencies into slope and offset reproduces these efficiencies at minimum and full load. "
     "An extraction turbine trades main output for tapped output along its declared line, never beyond back-pressure operation.",
     PI, "All slopes, offsets, efficiencies and load ranges (also time-dependent, either side as reference, invested capacity), all operating points.",
     WHY + "The tests evaluate the line at the optimum of few systems; both ends, the off state and time-dependent factors are not covered together.",
     ["components/_offset_converter.py", "components/_extraction_turbine_chp.py"],
     [("offset relation", "components/_offset_converter.py:OffsetConverterBlock"), ("slope and offset", "components/_offset_converter.py:slope_offset_from_nonconvex_input/output"),
      ("extraction turbine relations", "components/_extraction_turbine_chp.py:ExtractionTurbineCHPBlock")],
     ["flows of the component"])

prop("C11", "Generic CHP and piecewise converters stay on their characteristic",
     "A generic combined heat and power unit operates only inside the area spanned by its declared electrical power limits, efficiencies, power-loss index and flue-gas losses, and is idle when off; "
     "a piecewise linear converter delivers exactly the value of its conversion function, interpolated between the breakpoints. No declared operating point is excluded.",
     PI, "All parameters, with and without back-pressure, motoric operation, all breakpoints, all operating points.",
     WHY + "One parameter set per component, observed at one optimum.",
     ["components/_generic_chp.py", "components/experimental/_piecewise_linear_converter.py"],
     [("CHP constraints", "components/_generic_chp.py:GenericCHPBlock"), ("piecewise relation", "components/experimental/_piecewise_linear_converter.py:PiecewiseLinearConverterBlock")],
     ["flows of the component"])

prop("C12", "Investment decisions respect their bounds and size what they pay for",
     "An invested capacity lies between minimum and maximum; if the decision is optional it is either zero or in that range. The flow or storage it belongs to is limited by existing plus invested capacity with all its relative limits and profiles, "
     "and by nothing else. Declared ratios between storage power and storage capacity hold exactly.",
     PI, "All investment parameters, capacities and operations, for flows and storages, with and without on/off operation.",
     WHY + "Optima sit at one bound; that the whole range is usable and nothing beyond is not observable from them.",
     ["flows/_investment_flow_block.py", "flows/_invest_non_convex_flow_block.py", "components/_generic_storage.py", "_options.py"],
     [("flow investment", "flows/_investment_flow_block.py"), ("storage investment", "components/_generic_storage.py:GenericInvestmentStorageBlock"), ("with on/off operation", "flows/_invest_non_convex_flow_block.py")],
     ["invest[i, o, p], invest_status[i, o, p], flow[i, o, t]"])

prop("C13", "Multi-period capacity is what was bought or existed and has not retired",
     "In each period of a multi-period model the usable capacity is the existing capacity still within its lifetime (counting its age) plus everything bought in this or an earlier period and still within its lifetime. "
     "A purchase serves from the period it is made until the first period that begins at or after the end of its lifetime, also when the periods are of unequal length. "
     "Overall limits bound the total capacity: the maximum in each period, the minimum at the end.",
     PI, "All sequences of purchases over the periods, lifetimes, ages, period lengths, for flows and storages.",
     WHY + "Retirement depends on a combination of lifetime, age and period starts, of which the tests contain a few with equal periods.",
     ["flows/_investment_flow_block.py", "components/_generic_storage.py", "_energy_system.py"],
     [("total, old, exogenous and endogenous old capacity (flow)", "flows/_investment_flow_block.py"), ("same for storages", "components/_generic_storage.py"), ("period years and matrix", "_energy_system.py")],
     ["total[i, o, p], old[i, o, p], invest[i, o, p]"])

prop("C14", "The objective charges each unit of energy once, at its price",
     "The operational part of the objective is the sum over all flows and time steps of value times variable cost times the weight of the step (its length, unless weights are given), in a multi-period model discounted to the first year, "
     "plus storage costs per content, plus yearly fixed costs. Steps or flows without a cost contribute nothing, and no feasible operation changes the cost of another component.",
     PI, "All cost series (including zero, negative and missing values), step lengths and weights, discount rates, all operations.",
     WHY + "Most tests use unit weights and constant costs and compare an optimum that many wrong objectives share.",
     ["_models.py", "flows/_simple_flow_block.py", "components/_generic_storage.py"],
     [("variable and fixed costs", "flows/_simple_flow_block.py:SimpleFlowBlock._objective_expression"), ("objective assembly", "_models.py:Model._add_objective"), ("storage costs", "components/_generic_storage.py")],
     ["objective value of any fixed operation"])

prop("C15", "The objective charges every investment with its declared cost",
     "In a single-period model an investment costs its amount times the specific cost, plus the offset if it is made. In a multi-period model specific costs are spread as annuities over the lifetime and charged for the years inside the horizon, "
     "together with yearly fixed costs and, if requested, the difference in remaining value at the end of the horizon. Capacity that is not bought costs nothing.",
     PI, "All purchase plans, cost series per period, lifetimes, interest rates, horizons, for flows and storages.",
     WHY + "Few multi-period economics are tested, with equal periods and one lifetime relative to the horizon.",
     ["flows/_investment_flow_block.py", "flows/_invest_non_convex_flow_block.py", "components/_generic_storage.py", "_options.py"],
     [("investment costs of flows", "flows/_investment_flow_block.py:_objective_expression"), ("investment costs of storages", "components/_generic_storage.py:GenericInvestmentStorageBlock._objective_expression")],
     ["objective value of any fixed plan"])

prop("C16", "Integral limits bound exactly the weighted flows they name",
     "An integral (or emission) limit bounds, from above and below as given, the sum over the selected flows and all steps of value times the flow's factor times the length of the step; in the periodical form the sum of each period by the limit of that period. "
     "Flows that do not carry the keyword are not counted, and the recorded total equals that sum.",
     PI, "All selections of flows, factors (scalar and series), limits, step lengths, periods, all operations.",
     WHY + "Tests count one or two flows with constant factors and hourly steps.",
     ["constraints/integral_limit.py"],
     [("integral limit", "constraints/integral_limit.py:generic_integral_limit"), ("periodical limit", "constraints/integral_limit.py:generic_periodical_integral_limit"), ("emission limits", "constraints/integral_limit.py:emission_limit")],
     ["sum of weighted flows of any feasible operation"])

prop("C17", "Coupling constraints bind exactly what they name",
     "Equated flows (or flow groups by keyword) and equated variables stay in the given ratio in every step; at most (at least) the given number of the listed units is active in every step; the weighted sum of the shared variables stays between its limits; "
     "outflows and inflows tied to storage levels are only active while the content is above (below) the threshold. No other operation is excluded.",
     PI, "All memberships, factors, thresholds and limits, all operations and all time steps.",
     WHY + "Each function has one or two tests on one optimum; the forbidden side and the freedom of the rest are not explored.",
     ["constraints/equate_flows.py", "constraints/equate_variables.py", "constraints/flow_count_limit.py", "constraints/shared_limit.py", "constraints/storage_level.py"],
     [("equated flows", "constraints/equate_flows.py"), ("equated variables", "constraints/equate_variables.py"), ("active flow count", "constraints/flow_count_limit.py"), ("shared limit", "constraints/shared_limit.py"), ("storage level", "constraints/storage_level.py")],
     ["feasibility of any fixed operation"])

prop("C18", "Investment budgets bound the investments they are declared for",
     "A limit on total investment cost bounds the sum of the investment costs of all flows and storages (per period in its periodical form), and a limit on an attribute of investments bounds the sum of that attribute times the invested amounts of exactly the flows that carry it. "
     "Every plan within the budget stays possible.",
     PI, "All investment plans, attributes, limits and periods, flows and storages mixed.",
     WHY + "Each is tested by one optimum at the limit.",
     ["constraints/investment_limit.py"],
     [("cost limit", "constraints/investment_limit.py:investment_limit"), ("cost limit per period", "constraints/investment_limit.py:investment_limit_per_period"), ("attribute limit", "constraints/investment_limit.py:additional_investment_flow_limit")],
     ["feasibility of any fixed investment plan"])

prop("C19", "Aggregated time series stand for the original horizon",
     "With time series aggregation, every typical step counts in costs, integral limits, full load times and start-up costs with the number of original steps it represents and with its own length (that of its segment, if there are segments). Inside one typical period a storage follows the usual energy balance with its losses, charging and discharging; "
     "from one original period to the next it carries over what the sequence of typical periods implies, across investment periods as well, and its content respects the storage limits at every original step and at the end of the horizon. A balanced storage (not invested in) ends with the content it started with. "
     "Results are reported on the original time axis: every original step with the flows and status values of the typical step that represents it, and the content the storage really has there (linear within a segment).",
     PI, "All assignments of original periods to typical periods, occurrences, segments, storage parameters and operations.",
     WHY + "A few aggregated examples with fixed clustering are tested.",
     ["_energy_system.py", "_models.py", "components/_generic_storage.py", "flows/_simple_flow_block.py", "flows/_non_convex_flow_block.py", "flows/_investment_flow_block.py", "constraints/integral_limit.py", "processing.py"],
     [("occurrence weighting", "_models.py:Model"), ("intra and inter storage contents", "components/_generic_storage.py"), ("disaggregation", "processing.py")],
     ["objective and contents of any fixed operation", "results on the original time axis"])

prop("C20", "The time axis of the model is the one that was given",
     "A model has exactly one step per interval of the given time index, with the length of that interval in hours - the last one inferred if asked for, a time increment alone defines the axis as well - and periods partition these steps and carry the years the index states. "
     "Points that are not in ascending order, steps that are not positive, an interval that cannot be inferred, and (without periods) an index together with step lengths are rejected when the system is created, never silently repaired. The helper that creates an index for a year and interval returns exactly the points that delimit the requested steps.",
     ["inputs", "configurations"], "All time indexes (regular, irregular, with or without frequency), increments, period lists, years and intervals.",
     WHY + "The tests cover regular hourly indexes and a few errors.",
     ["_energy_system.py", "_models.py"],
     [("time axis of the system", "_energy_system.py:EnergySystem.__init__"), ("index helper", "_energy_system.py:create_time_index"), ("time sets of the model", "_models.py:Model._add_parent_block_sets")],
     ["EnergySystem.timeincrement, timeindex, periods_years; Model.TIMESTEPS, TIMEPOINTS"])

prop("C21", "Reported results are the values of the solved model",
     "After solving, the results object reports for every variable, component and time step the value that variable has in the solved model, indexed by the time axis (time points for contents, periods for investments), with the objective value and the cost breakdown: variable costs per flow and step as the objective weights them, and investment costs per unit and period (both undiscounted). For models of one period with no other kinds of costs they sum up to the objective. "
     "It names exactly the variables that exist, and asking for an absent one fails.",
     ["programs", "inputs", "histories"], "All systems, all solutions, all result keys.",
     WHY + "Tests check shapes and a few entries; mixing up two columns of equal sums is not visible.",
     ["_results.py"],
     [("results access", "_results.py:Results")],
     ["Results[key] against the values of the solved model"])

prop("C22", "Processed results and views assign every value to its node, flow and time",
     "Processing a solved model returns for every flow and component its sequence over the time axis and its scalar results, equal to the values of the solved model and under the right key, also with string keys, with or without empty entries, and for multi-period models. "
     "Views of a node select exactly the entries of that node, filters select by the stated condition, and net storage flow is outflow minus inflow. The listed parameters of a system are the values that were given for each flow and node.",
     ["programs", "inputs", "histories"], "All systems, solutions, option combinations of the processing and view functions.",
     WHY + "Existing tests read sums of single columns from one or two examples.",
     ["processing.py", "views.py"],
     [("results of a solved model", "processing.py:results"), ("parameters as dictionary", "processing.py:parameter_as_dict"), ("views", "views.py")],
     ["returned dictionaries and data frames against the solved model"])

prop("C23", "Building a model is a pure function of the system description",
     "Building a model from an energy system neither changes the system nor depends on the order in which its nodes were added or on models built before: each of them admits the same operations at the same cost. "
     "Models of one system, and systems that share no components, do not influence each other, whatever their horizon.",
     ["histories", "configurations", "programs"], "All sequences of creating components, adding them, building and solving models, also several times and interleaved.",
     WHY + "Every test builds each system once, in one order.",
     ["_models.py", "_energy_system.py", "_plumbing.py", "_groupings.py"],
     [("model assembly", "_models.py:BaseModel"), ("grouping of nodes into blocks", "_groupings.py"), ("sequences", "_plumbing.py:sequence")],
     ["feasible set and cost of the models"])

prop("C24", "A dumped and restored energy system is the same system",
     "An energy system that is dumped to a file and restored has the same nodes, connections, parameters, time axis and results, and a model built from it admits the same operations at the same cost. "
     "Restoring replaces whatever the receiving system contained.",
     ["histories", "configurations"], "All systems and histories of add, dump, restore, solve.",
     WHY + "One small system is dumped in the tests and only restored attributes are compared.",
     ["_energy_system.py", "_plumbing.py", "flows/_flow.py"],
     [("system state", "_energy_system.py:EnergySystem"), ("serialised parameters", "_plumbing.py")],
     ["restored system, model and results"])

prop("C25", "Contradictory parameters are rejected, consistent ones accepted",
     "Components whose parameters contradict each other or leave the model undefined - limits without a capacity, fixed profiles together with bounds, investments without the data their kind requires, initial levels outside the unit range, wrong numbers of inputs or outputs - raise an error when they are created or at the latest when the model is built. "
     "Every consistent combination is accepted, and series shorter than the horizon are reported instead of being silently recycled.",
     ["inputs", "configurations"], "All combinations of optional parameters of flows, investments, on/off options and components.",
     WHY + "There is one test per error message; the combinations grow exponentially.",
     ["flows/_flow.py", "_options.py", "components/_generic_storage.py", "components/_offset_converter.py", "components/_link.py", "_plumbing.py"],
     [("flow parameters", "flows/_flow.py:Flow.__init__"), ("investment parameters", "_options.py:Investment"), ("storage parameters", "components/_generic_storage.py:GenericStorage"), ("sequence lengths", "_plumbing.py")],
     ["exceptions raised by constructors and Model()"])

prop("C26", "Solving reports the optimum or reports that there is none",
     "When solving succeeds, the reported objective value is the cost of the reported operation and no other admissible operation is cheaper; dual values and meta results belong to that solution. "
     "When the solver ends without an optimal solution this is raised as an error unless explicitly allowed, and no outdated solution is presented as the result: the outcome of the last attempt is what the model and the system hold, results that were returned earlier stay those of their own solution. "
     "Options given for the solver reach it. Relaxing integrality only widens the choice.",
     ["programs", "histories", "inputs"], "All systems, feasible, infeasible or unbounded, all histories of building, solving, relaxing and solving again.",
     WHY + "A few systems are solved, one infeasible case is tested.",
     ["_models.py", "_results.py", "processing.py"],
     [("solving", "_models.py:Model.solve"), ("relaxation and duals", "_models.py:Model.relax_problem, receive_duals"), ("meta results", "processing.py:meta_results")],
     ["Model.solve, objective, results"])

prop("C27", "The same system in other words is the same system",
     "What a parameter means does not depend on how it is written: a number stands for a series of that number, lists, tuples, arrays and pandas series of the same values mean the same, integers and floats are equal, a parameter that is left out has its documented default, and older names of a parameter mean what the new ones do. "
     "What a system means does not depend on how it is put together either: nodes may be created and added in any order, one by one or together, inside parent nodes or adopted by them, with labels of any hashable kind, and flows may be declared at the component or at the bus. "
     "The model admits the same operations at the same cost, and custom properties of nodes and flows are kept.",
     ["programs", "inputs", "histories"], "All components, parameters and constraint functions, all ways of writing each value, all ways to put a system together.",
     WHY + "Most parameters occur in one notation in one test, and components with parents or flows declared at buses hardly at all.",
     ["_plumbing.py", "_options.py", "flows/_flow.py", "components/_generic_storage.py", "components/_converter.py", "components/_offset_converter.py", "components/_link.py", "components/_generic_chp.py", "buses/_bus.py", "_energy_system.py"],
     [("sequences", "_plumbing.py:sequence"), ("flow parameters", "flows/_flow.py:Flow.__init__"), ("options", "_options.py"), ("components", "components"), ("limits", "constraints")],
     ["feasible set and cost of the models, nodes of the system"])

prop("C28", "A compressed air plant runs within its cavern, heat and power limits",
     "Compressor and expander of a compressed air energy storage run between their minimum load and what the filling of the cavern at the beginning of the step allows. Compression fills the cavern and expansion empties it by the declared linear relations, "
     "over the length of the step; a plant at rest keeps its filling, and the filling stays between empty (as it starts) and the maximum. The declared shares of the heat of compression and of the heat of expansion go into and come out of the heat store, within its capacity, "
     "and the rest of the heat of expansion is exactly the fuel. Every operation within these limits stays possible.",
     PI, "All parameters (slopes, constants, shares, temperature factor), step lengths, operations over the horizon.",
     WHY + "One plant with one parameter set, whose constants and heat store are zero, is observed at one optimum.",
     ["components/experimental/_generic_caes.py"],
     [("all relations", "components/experimental/_generic_caes.py:GenericCAESBlock"), ("flows", "components/experimental/_generic_caes.py:GenericCAES.__init__")],
     ["flows of the plant"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
