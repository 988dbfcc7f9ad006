------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* What the results of a solved model are.                                 *)
(*                                                                         *)
(* A solved model is a valuation of its variables:                         *)
(*   M.vars    sequence of [name, axis, cells: sequence of [k, t, v]]      *)
(*             k: the nodes the variable belongs to (labels), t: position  *)
(*             on the axis (1..), v: the value, a numeral                  *)
(*   M.points  the names of the points of the time axis.  A model of one   *)
(*             period has T + 1 of them, a multi-period model has T: its   *)
(*             last point has no name.                                     *)
(*   M.years   the names of the periods (multi-period models)              *)
(*   M.vc, M.w, M.units, M.duals, M.isa: prices, weights of the steps,     *)
(*             investments, dual values of the bus balances, node classes  *)
(*                                                                         *)
(* Everything that can be asked for is a projection of that valuation.     *)
(* Answer(M, q) is the set of tuples (sequences of strings) which a query  *)
(* q returns; the replay compares it with what the code returned.  The     *)
(* laws at the end hold for every valuation and are invariants of the      *)
(* small models that MCResults enumerates.                                 *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

None == "<none>"
NaN == "nan"

-----------------------------------------------------------------------------
(* Variables and their axes *)

Vars(M) == Range(M.vars)
Names(M) == {x.name : x \in Vars(M)}
\* the name of position t of an axis, or "" if it has none
Stamp(M, axis, t) ==
  CASE axis \in {"steps", "points"} -> IF t <= Len(M.points) THEN M.points[t] ELSE ""
    [] axis = "periods" -> ToString(t - 1)
    [] OTHER -> ""
\* the table of a variable: every block's cells, one column per owner
Table(M, name) ==
  UNION { UNION { LET r == Stamp(M, x.axis, c.t) IN
                  IF r = "" THEN {} ELSE {c.k \o <<r, c.v>>}
                  : c \in Range(x.cells) }
          : x \in {y \in Vars(M) : y.name = name} }

-----------------------------------------------------------------------------
(* Costs *)

Flow(M) == UNION { Range(x.cells) : x \in {y \in Vars(M) : y.name = "flow"} }
\* price * energy, as the objective counts it
VariableCosts(M) ==
  { c.k \o <<M.points[c.t], RMul(RMul(c.v, M.w[c.t]),
       M.vc[CHOOSE i \in 1..Len(M.vc) : M.vc[i].k = c.k].c[c.t])>> : c \in Flow(M) }
Cell(M, name, k, t) ==
  LET s == UNION { {c \in Range(x.cells) : c.k = k /\ c.t = t}
                   : x \in {y \in Vars(M) : y.name = name} } IN
  (CHOOSE c \in s : TRUE).v
InvestmentCosts(M) ==
  UNION { { u.k \o <<ToString(p - 1),
              RAdd(RMul(Cell(M, "invest", u.k, p), u.ep[p]),
                   IF u.nc THEN RMul(Cell(M, "invest_status", u.k, p), u.off[p]) ELSE "0")>>
            : p \in 1..Len(u.ep) } : u \in Range(M.units) }

\* the last members of the tuples (SetToSeq keeps equal values of different tuples)
Values(S) == LET s == SetToSeq(S) IN [i \in 1..Len(s) |-> s[i][Len(s[i])]]

Economy(M) == {"variable_costs"} \cup (IF "invest" \in Names(M) THEN {"investment_costs"} ELSE {})
Keys(M) == Names(M) \cup {"objective"} \cup Economy(M) \cup Range(M.solverKeys)

-----------------------------------------------------------------------------
(* Processed results: entries keyed by (node, node) or (node, None) *)

PeriodAxis(x) == x.axis = "periods"
Entry(k) == IF Len(k) = 1 THEN <<k[1], None>> ELSE k
Owned(M) == {x \in Vars(M) : x.axis \in {"steps", "points", "periods"}}
Duals(M) == { <<d.bus, None>> : d \in Range(M.duals) }
Entries(M) == UNION { {Entry(c.k) : c \in Range(x.cells)} : x \in Owned(M) } \cup Duals(M)

\* values over time; what belongs to steps has no value at the final point
Timed(M, last) ==
  LET n == IF last /\ ~M.multi THEN Len(M.points) ELSE M.T IN  \* (segments have no final point)
  UNION { UNION { IF c.t <= n THEN {<<"seq">> \o Entry(c.k) \o <<x.name, M.points[c.t], c.v>>} ELSE {}
                  : c \in Range(x.cells) }
          : x \in {y \in Owned(M) : ~PeriodAxis(y)} }
  \cup (IF n <= M.T THEN {}
        ELSE UNION { { <<"seq">> \o Entry(c.k) \o <<x.name, M.points[n], NaN>> : c \in Range(x.cells) }
                     : x \in {y \in Owned(M) : y.axis = "steps"} })
  \cup { <<"seq", d.bus, None, "duals", M.points[d.t], d.v>> : d \in Range(M.duals) }
  \cup (IF n <= M.T THEN {} \* the duals of a bus that has other values over time
        ELSE { <<"seq", e[1], None, "duals", M.points[n], NaN>> : e \in Duals(M) \cap
               UNION {{Entry(c.k) : c \in Range(x.cells)} : x \in {y \in Owned(M) : ~PeriodAxis(y)}} })
\* values per period; a model of one period has just one
Untimed(M) ==
  UNION { { IF M.multi THEN <<"period">> \o Entry(c.k) \o <<x.name, M.years[c.t], c.v>>
            ELSE <<"scalar">> \o Entry(c.k) \o <<x.name, c.v>> : c \in Range(x.cells) }
          : x \in {y \in Owned(M) : PeriodAxis(y)} }
Processed(M, last) == Timed(M, last) \cup Untimed(M)

\* the two nodes of a processed value
From(e) == e[2]
To(e) == e[3]

-----------------------------------------------------------------------------
(* Views *)

\* (without the points at which a variable has no value)
Present(M) == {e \in Processed(M, TRUE) : e[Len(e)] # NaN}
NodeView(M, n) == {e \in Present(M) : n \in {From(e), To(e)}}
HasOutputs(M, n) == \E e \in Entries(M) : e[1] = n /\ e[2] # None
HasInputs(M, n) == \E e \in Entries(M) : e[2] = n
Nodes(M) == UNION {{e[1], e[2]} : e \in Entries(M)} \ {None}
Chosen(M, opt) ==
  {n \in Nodes(M) :
    CASE opt = "all" -> TRUE
      [] opt = "has_outputs" -> HasOutputs(M, n)
      [] opt = "has_inputs" -> HasInputs(M, n)
      [] opt = "has_only_outputs" -> HasOutputs(M, n) /\ ~HasInputs(M, n)
      [] opt = "has_only_inputs" -> HasInputs(M, n) /\ ~HasOutputs(M, n)}
Is(M, n, cls) == n \in DOMAIN M.isa /\ cls \in Range(M.isa[n])
Filter(M, opt, nobus) == {n \in Chosen(M, opt) : nobus => ~Is(M, n, "Bus")}

Seqs(M) == {e \in Present(M) : e[1] = "seq"}
InputsOf(M, cls) == {e \in Seqs(M) : Is(M, To(e), cls)}
OutputsOf(M, cls) == {e \in Seqs(M) : Is(M, From(e), cls) /\ To(e) # None}
WeightsOf(M, cls) == {e \in Seqs(M) : Is(M, From(e), cls) /\ To(e) = None}
\* outflow minus inflow of every storage and step
NetFlow(M, cls) ==
  LET stores == {n \in Nodes(M) : Is(M, n, cls) /\
                   \E e \in WeightsOf(M, cls) : From(e) = n /\ e[4] = "storage_content"}
      fl(a, t) == {c \in Flow(M) : c.t = t /\ c.k[a]  \in stores}
      total(s, a, t) == RSum([i \in 1..Len(M.vc) |->
          LET c == {x \in Flow(M) : x.k = M.vc[i].k /\ x.t = t} IN
          IF M.vc[i].k[a] = s THEN (CHOOSE x \in c : TRUE).v ELSE "0"]) IN
  UNION { { <<s, M.points[t], RSub(total(s, 1, t), total(s, 2, t))>> : t \in 1..M.T } : s \in stores }

-----------------------------------------------------------------------------
(* Parameters: every value that was given, with the flow or node it was given for *)

Parameters(M) ==
  UNION { IF g.list THEN {<<"many">> \o g.k \o <<g.a, ToString(i - 1), g.v[i]>> : i \in 1..Len(g.v)}
          ELSE {<<"one">> \o g.k \o <<g.a, g.v[1]>>} : g \in Range(M.given) }

-----------------------------------------------------------------------------
(* Keys as strings: without keeping it, None is a string, too *)

Str(x, keep) == IF x = None /\ ~keep THEN "None" ELSE x
Stringed(M, keep) == {<<Str(e[1], keep), Str(e[2], keep)>> : e \in Entries(M)}

Answer(M, q) ==
  CASE q.op = "keys" -> {<<k>> : k \in Keys(M)}
    [] q.op = "member" -> {<<IF q.name \in Keys(M) THEN "yes" ELSE "no">>}
    [] q.op = "table" -> IF q.name \in Names(M) THEN Table(M, q.name)
                         ELSE {<<"absent">>}
    [] q.op = "objective" -> {<<M.objective>>}
    [] q.op = "variable_costs" -> VariableCosts(M)
    [] q.op = "investment_costs" -> InvestmentCosts(M)
    [] q.op = "breakdown" -> {<<RSum(Values(VariableCosts(M)) \o Values(InvestmentCosts(M)))>>}
    [] q.op = "results" -> Processed(M, q.last)
    [] q.op = "entries" -> Entries(M)
    [] q.op = "strings" -> Stringed(M, q.keep)
    [] q.op = "parameters" -> Parameters(M)
    [] q.op = "node" -> NodeView(M, q.node)
    [] q.op = "filter" -> {<<n>> : n \in Filter(M, q.opt, q.nobus)}
    [] q.op = "byname" -> {<<ToString(i), IF q.names[i] \in Nodes(M) THEN q.names[i] ELSE None>>
                           : i \in 1..Len(q.names)}
    [] q.op = "inputs" -> InputsOf(M, q.cls)
    [] q.op = "outputs" -> OutputsOf(M, q.cls)
    [] q.op = "weights" -> WeightsOf(M, q.cls)
    [] q.op = "net" -> NetFlow(M, q.cls)

-----------------------------------------------------------------------------
(* Laws *)

\* (P: the processed results)
\* no value is lost or invented on the way from the model to the results
Complete(M, P) ==
  /\ \A x \in Owned(M) : \A c \in Range(x.cells) :
       \/ x.axis = "points" /\ M.multi /\ c.t > M.T
       \/ (IF PeriodAxis(x) THEN (IF M.multi THEN <<"period">> \o Entry(c.k) \o <<x.name, M.years[c.t], c.v>>
                                                   ELSE <<"scalar">> \o Entry(c.k) \o <<x.name, c.v>>)
           ELSE <<"seq">> \o Entry(c.k) \o <<x.name, M.points[c.t], c.v>>) \in P
  /\ LET values == {d.v : d \in Range(M.duals)} \cup UNION {{c.v : c \in Range(x.cells)} : x \in Owned(M)} IN
     \A e \in P : e[Len(e)] \in values \cup {NaN}
\* a place has one value (variables of equal name belong to different owners)
Functional(P) == Cardinality({SubSeq(e, 1, Len(e) - 1) : e \in P}) = Cardinality(P)
\* the views of the nodes together are the results, a flow is in two of them
Twice(M, P) ==
  LET views == [n \in Nodes(M) |-> {e \in P : n \in {From(e), To(e)}}] IN
  /\ UNION {views[n] : n \in Nodes(M)} = P
  /\ \A e \in P : \A n \in Nodes(M) : (e \in views[n]) = (n = From(e) \/ n = To(e))
\* leaving out the last point of time only leaves out the last point of time
Shorter(M, P) == LET S == Processed(M, FALSE) IN
   /\ S \subseteq P
   /\ (M.multi => S = P)
   /\ \A e \in P \ S : e[1] = "seq" /\ e[5] = M.points[M.T + 1]
\* nodes with only inputs, only outputs and with both are all there are
Partition(M) ==
   Chosen(M, "all") = Chosen(M, "has_only_inputs") \cup Chosen(M, "has_only_outputs")
                      \cup (Chosen(M, "has_inputs") \cap Chosen(M, "has_outputs"))
                      \cup {n \in Nodes(M) : ~HasInputs(M, n) /\ ~HasOutputs(M, n)}
Laws(M) == LET P == Processed(M, TRUE) IN
   << <<"complete", Complete(M, P)>>, <<"functional", Functional(P)>>, <<"twice", Twice(M, P)>>,
      <<"shorter", Shorter(M, P)>>, <<"partition", Partition(M)>> >>
=============================================================================
