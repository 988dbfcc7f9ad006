------------------------------ MODULE TsamAxis ------------------------------
(***************************************************************************)
(* The time axis of a system whose time series are aggregated (C20).       *)
(*                                                                         *)
(* For each investment period a description tells the order of the typical *)
(* periods (0, 1, ...), how many steps each of them has or into which      *)
(* segments it is divided.  Axis says what the steps of the model are, how *)
(* often each of them happens, and which of them stands for each original  *)
(* step - or that the description is rejected.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxOrder,    \* longest order of a single investment period
          MultiOrder,  \* of one of several
          MaxPeriods, MaxSteps, Lengths

Elements(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Often(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Reject == [ok |-> FALSE]

(***************************************************************************)
(* d.multi    several investment periods                                   *)
(* d.given    lengths of steps are given as well, 60 minutes each          *)
(* d.periods  for each: order, steps (of a typical period), segs (<<>> or  *)
(*            the lengths of the segments of each typical period)          *)
(***************************************************************************)
Segmented(q) == q.segs # <<>>
Typical(q) == Cardinality(Elements(q.order))
Size(q) == IF Segmented(q) THEN Len(q.segs[1]) ELSE q.steps
First(d, p) == Sum([q \in 1..(p - 1) |-> Typical(d.periods[q]) * Size(d.periods[q])])
Original(d, p) == Sum([q \in 1..(p - 1) |-> Len(d.periods[q].order) * Size(d.periods[q])])
Axis(d) ==
  LET n == Len(d.periods)
      some == \E p \in 1..n : Segmented(d.periods[p])
      all == \A p \in 1..n : Segmented(d.periods[p])
      Steps(p) == Typical(d.periods[p]) * Size(d.periods[p]) IN
  IF d.given /\ (some \/ ~d.multi) THEN Reject    \* ambiguous
  ELSE IF some /\ ~all THEN Reject                \* steps of different kinds
  ELSE [ok |-> TRUE,
        incs |-> IF all THEN Concat([p \in 1..n |-> [i \in 1..Steps(p) |->
                    60 * d.periods[p].segs[(i - 1) \div Size(d.periods[p]) + 1][((i - 1) % Size(d.periods[p])) + 1]]])
                 ELSE [i \in 1..First(d, n + 1) |-> 60],
        steps |-> [p \in 1..n |-> [i \in 1..Steps(p) |-> First(d, p) + i]],
        weights |-> Concat([p \in 1..n |-> [i \in 1..Steps(p) |->
                      Often(d.periods[p].order, (i - 1) \div Size(d.periods[p]))]]),
        represents |-> Concat([p \in 1..n |-> [i \in 1..(Len(d.periods[p].order) * Size(d.periods[p])) |->
                         First(d, p) + d.periods[p].order[(i - 1) \div Size(d.periods[p]) + 1] * Size(d.periods[p])
                           + ((i - 1) % Size(d.periods[p])) + 1]])]

-----------------------------------------------------------------------------
(* A description is written down, then used *)
VARIABLES stage, desc, axis
vars == <<stage, desc, axis>>
MCMaxOrder == IF IOEnv.VERIF_TIER = "quick" THEN 3 ELSE 4
Orders == {s \in UNION {[1..n -> 0..(n - 1)] : n \in 1..MaxOrder} : Elements(s) = 0..(Cardinality(Elements(s)) - 1)}
Divisions(k) == UNION {[1..k -> [1..n -> Lengths]] : n \in 1..MaxSteps}
Init == /\ stage = "describe" /\ axis = Reject
        /\ \E multi, given \in BOOLEAN : desc = [multi |-> multi, given |-> given, periods |-> <<>>]
AddPeriod ==
  /\ stage = "describe" /\ Len(desc.periods) < (IF desc.multi THEN MaxPeriods ELSE 1)
  /\ \E o \in {x \in Orders : desc.multi => Len(x) <= MultiOrder} :
       \/ \E g \in 1..MaxSteps : desc' = [desc EXCEPT !.periods = Append(@, [order |-> o, steps |-> g, segs |-> <<>>])]
       \/ \E s \in Divisions(Cardinality(Elements(o))) :
            desc' = [desc EXCEPT !.periods = Append(@, [order |-> o, steps |-> 0, segs |-> s])]
  /\ UNCHANGED <<stage, axis>>
\* (the gaps between investment periods are no steps: lengths are needed)
Complete(d) == d.periods # <<>> /\ (d.multi /\ ~d.given => \E p \in 1..Len(d.periods) : Segmented(d.periods[p]))
Create == /\ stage = "describe" /\ Complete(desc)
          /\ stage' = "created" /\ axis' = Axis(desc) /\ UNCHANGED desc
Next == AddPeriod \/ Create

-----------------------------------------------------------------------------
(* What a user relies on *)
Accepted == stage = "created" /\ axis.ok
\* the steps represent the whole original time, no more and no less
InvTime == Accepted =>
  Sum([i \in 1..Len(axis.incs) |-> axis.incs[i] * axis.weights[i]])
    = Sum([j \in 1..Len(axis.represents) |-> axis.incs[axis.represents[j]]])
InvWeights == Accepted => \A i \in 1..Len(axis.incs) : axis.weights[i] = Often(axis.represents, i) /\ axis.weights[i] > 0
InvPartition == Accepted => Concat(axis.steps) = [i \in 1..Len(axis.incs) |-> i]
\* nothing is taken from another investment period
InvInside == Accepted => \A p \in 1..Len(axis.steps) :
  \A j \in (Original(desc, p) + 1)..Original(desc, p + 1) : axis.represents[j] \in Elements(axis.steps[p])
InvUsable == stage = "created" /\ ~axis.ok =>
  \/ desc.given /\ (~desc.multi \/ \E p \in 1..Len(desc.periods) : Segmented(desc.periods[p]))
  \/ \E p, q \in 1..Len(desc.periods) : Segmented(desc.periods[p]) /\ ~Segmented(desc.periods[q])
Show == stage = "created" => PrintT("TSAM " \o ToJson([d |-> desc, axis |-> axis]))
=============================================================================
