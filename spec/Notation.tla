------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* How the value of a parameter may be written down, and what is meant by  *)
(* it (C27).                                                               *)
(*                                                                         *)
(* A place is a parameter of some class.  `per` tells what its value       *)
(* belongs to: "once", "whole" or "rate" (a number), "step", "point",      *)
(* "period" or "year" (a number or one for each of them), "count" (whole   *)
(* numbers, per step), "list" (one value per step anyway), "flag", "turn"  *)
(* (said by another flag), "increment" (one value per step), "way" (what   *)
(* is done, not what is given) or "group" (named values).  `default` is    *)
(* what leaving it out means, `names` are the older names of the           *)
(* parameter.                                                              *)
(*                                                                         *)
(* A draft takes a place and a value and says how it is written.  Whatever *)
(* it looks like, Meaning - the value for each step - is that of the       *)
(* value, so that the system is the same system.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT N             \* how many steps
VARIABLES pc, draft
vars == <<pc, draft>>

Place(c, p, per, default, names) == [class |-> c, name |-> p, per |-> per, default |-> default, names |-> {p} \cup names]
Series(c, p, default) == Place(c, p, "step", default, {})
Once(c, p) == Place(c, p, "once", "none", {})
Whole(c, p, default) == Place(c, p, "whole", default, {})
List(p) == Place("GenericCHP", p, "list", "required", {})

Places ==
  { Place("Flow", "nominal_capacity", "once", "none", {"nominal_value"}),
    Place("Flow", "minimum", "step", "0", {"min"}), Place("Flow", "maximum", "step", "1", {"max"}),
    Series("Flow", "fix", "none"), Series("Flow", "variable_costs", "0"),
    Series("Flow", "positive_gradient_limit", "none"), Series("Flow", "negative_gradient_limit", "none"),
    Once("Flow", "full_load_time_max"), Once("Flow", "full_load_time_min"),
    Place("Flow", "bidirectional", "turn", "required", {}),  \* a minimum of -1
    Place("Flow", "integer", "flag", "0", {}), Whole("Flow", "lifetime", "none"), Whole("Flow", "age", "none"),
    Place("Flow", "fixed_costs", "year", "none", {}),
    Place("Flow", "custom_properties", "group", "none", {"custom_attributes"}),
    Place("Investment", "maximum", "period", "inf", {}), Place("Investment", "minimum", "period", "0", {}),
    Place("Investment", "ep_costs", "period", "0", {}), Place("Investment", "offset", "period", "0", {}),
    Place("Investment", "existing", "once", "0", {}), Once("Investment", "overall_maximum"),
    Once("Investment", "overall_minimum"), Whole("Investment", "lifetime", "none"), Whole("Investment", "age", "0"),
    Place("Investment", "fixed_costs", "year", "none", {}),
    Place("Investment", "custom_properties", "group", "none", {"custom_attributes"}),
    Whole("NonConvex", "initial_status", "0"),
    Place("NonConvex", "minimum_uptime", "count", "0", {}), Place("NonConvex", "minimum_downtime", "count", "0", {}),
    Whole("NonConvex", "maximum_startups", "none"), Whole("NonConvex", "maximum_shutdowns", "none"),
    Series("NonConvex", "startup_costs", "none"), Series("NonConvex", "shutdown_costs", "none"),
    Series("NonConvex", "activity_costs", "none"), Series("NonConvex", "inactivity_costs", "none"),
    Series("NonConvex", "positive_gradient_limit", "none"), Series("NonConvex", "negative_gradient_limit", "none"),
    Place("GenericStorage", "nominal_capacity", "once", "none", {"nominal_storage_capacity"}),
    Once("GenericStorage", "initial_storage_level"), Place("GenericStorage", "balanced", "flag", "1", {}),
    Series("GenericStorage", "loss_rate", "0"), Series("GenericStorage", "fixed_losses_relative", "0"),
    Series("GenericStorage", "fixed_losses_absolute", "0"),
    Series("GenericStorage", "inflow_conversion_factor", "1"), Series("GenericStorage", "outflow_conversion_factor", "1"),
    Place("GenericStorage", "min_storage_level", "point", "0", {}), Place("GenericStorage", "max_storage_level", "point", "1", {}),
    Series("GenericStorage", "storage_costs", "none"), Place("GenericStorage", "fixed_costs", "year", "0", {}),
    Once("GenericStorage", "constant_soc_until"), Once("GenericStorage", "fraction_saturation_charging"),
    Place("GenericStorage", "invest_relation_input_output", "period", "none", {}),
    Place("GenericStorage", "invest_relation_input_capacity", "period", "none", {}),
    Place("GenericStorage", "invest_relation_output_capacity", "period", "none", {}),
    Series("Converter", "conversion_factors", "1"), Series("Link", "conversion_factors", "required"),
    Series("OffsetConverter", "conversion_factors", "1"), Series("OffsetConverter", "normed_offsets", "0"),
    Series("ExtractionTurbineCHP", "conversion_factors", "1"),
    Series("ExtractionTurbineCHP", "conversion_factor_full_condensation", "required"),
    List("beta"), List("P_max_woDH"), List("P_min_woDH"), List("Eta_el_max_woDH"), List("Eta_el_min_woDH"), List("Q_CW_min"),
    List("H_L_FG_share_max"), List("H_L_FG_share_min"),
    \* how the model is asked for
    Place("Model", "objective_weighting", "increment", "increments", {}), Place("Model", "timeincrement", "increment", "required", {}),
    Place("Model", "discount_rate", "rate", "0.02", {}), Place("Model", "made", "way", "required", {}),
    \* custom properties that limits weigh flows with, and the limits themselves
    Series("Weight", "value", "required"),
    Place("IntegralLimit", "upper_limit", "once", "none", {"limit"}), Once("IntegralLimit", "lower_limit"),
    Place("EmissionLimit", "limit", "once", "required", {}), Place("PeriodicalLimit", "limit", "period", "required", {}),
    Place("Budget", "limit", "once", "required", {}), Place("PeriodicalBudget", "limit", "period", "required", {}),
    Place("InvestmentFlowLimit", "limit", "once", "required", {}), Place("EquateFlows", "factor1", "once", "1", {}),
    Place("SharedLimit", "lower_limit", "once", "0", {}), Once("SharedLimit", "upper_limit"),
    Place("FlowCount", "lower_limit", "once", "0", {}), Once("FlowCount", "upper_limit") }

Many(p) == p.per \in {"step", "count", "point", "period", "year", "increment"}
Length(p) == CASE p.per = "point" -> N + 1 [] OTHER -> N

\* a value that is the same throughout, or not, or what is meant anyway
Shapes(p) == (IF p.default = "required" \/ p.per = "group" THEN {} ELSE {"default"})
             \cup (IF p.per = "increment" THEN {} ELSE {"value"}) \cup (IF Many(p) THEN {"series"} ELSE {})
Numbers(p) == {"int"} \cup (IF p.per = "rate" THEN {} ELSE {"numpy.int"})  \* (years are exponents)
              \cup (IF p.per \in {"count", "whole"} THEN {} ELSE {"float", "numpy.float"})
Lists == {"list", "tuple", "array", "series", "dated"}
Forms(p, shape) ==
  CASE p.per = "group" -> {"given"}
    [] p.per = "turn" -> {"turn"}
       \* built at once or step by step, by a class of its own, with a group of conditions more
    [] p.per = "way" -> {"stepwise", "derived", "extended", "named"}
    [] p.per = "increment" -> IF p.name = "timeincrement" THEN {"list", "tuple"}
                              ELSE (IF shape = "default" THEN {"omitted"} ELSE {}) \cup (Lists \ {"dated"})
    [] p.per = "list" -> Lists \ {"dated"}   \* these are looked up by their position
    [] p.per = "flag" -> IF shape = "default" THEN {"omitted", "bool"} ELSE {"bool"}
    [] shape = "series" -> Lists
    [] OTHER -> (IF shape = "default" THEN {"omitted"} \cup (IF p.default = "none" THEN {"none"} ELSE Numbers(p)) ELSE Numbers(p))
                \cup (IF Many(p) /\ ~(shape = "default" /\ p.default = "none") THEN Lists ELSE {})

\* what is written, for the value v (a number, or one per step)
Written(form, v, n) ==
  CASE form \in Lists -> [kind |-> "list", items |-> IF Len(v) = 1 THEN [i \in 1..n |-> v[1]] ELSE v]
    [] form \in {"omitted", "none"} -> [kind |-> "nothing", items |-> <<>>]
    [] OTHER -> [kind |-> "number", items |-> v]
\* what it means in each step
Meaning(w, default, n) ==
  CASE w.kind = "list" -> w.items
    [] w.kind = "nothing" -> [i \in 1..n |-> default]
    [] OTHER -> [i \in 1..n |-> w.items[1]]

Init == pc = "place" /\ draft = [class |-> "", name |-> "", shape |-> "", form |-> "", as |-> ""]
Choose == /\ pc = "place" /\ pc' = "form"
          /\ \E p \in Places : \E s \in Shapes(p) :
               draft' = [draft EXCEPT !.class = p.class, !.name = p.name, !.shape = s]
The == CHOOSE p \in Places : p.class = draft.class /\ p.name = draft.name
Write == /\ pc = "form" /\ pc' = "done"
         /\ \E f \in Forms(The, draft.shape), a \in The.names :
              /\ (f \in {"omitted"} => a = The.name)
              /\ draft' = [draft EXCEPT !.form = f, !.as = a]
Next == Choose \/ Write
Spec == Init /\ [][Next]_vars

Value == CASE draft.shape = "series" -> [i \in 1..Length(The) |-> "v" \o ToString(i)]
           [] draft.shape = "default" -> <<The.default>>
           [] OTHER -> <<"v">>
Same == (pc = "done" /\ The.per \notin {"group", "turn", "way"}) =>
  Meaning(Written(draft.form, Value, Length(The)), The.default, Length(The))
    = [i \in 1..Length(The) |-> IF draft.shape = "series" THEN Value[i] ELSE Value[1]]
Unique == \A p, q \in Places : p.class = q.class /\ p.name = q.name => p = q
Show == pc = "done" => PrintT("DRAFT " \o ToJson(draft @@ [per |-> The.per, default |-> The.default]))
=============================================================================
