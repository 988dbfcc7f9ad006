------------------------------ MODULE Solving ------------------------------
(***************************************************************************)
(* What solving reports, over histories of changing, relaxing and solving  *)
(* one model (C26).                                                        *)
(*                                                                         *)
(* The model: two steps.  A unit A (at most 4, 9/4 each), an on/off unit B *)
(* (2 to 4 when on, 1 each, 3 for being on), backup G (5 each) supply a    *)
(* demand and an export e that earns 6 each and is at most 1 in each step  *)
(* unless it was opened.  A limit on everything that is supplied over both *)
(* steps can be put in force.  All numbers that bound something are        *)
(* integers and with the states of B given what is left is a flow problem, *)
(* so there is always an optimum among the integer plans (B's state in     *)
(* quarters when it is relaxed), which are enumerated here.                *)
(* Money is counted in quarters.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen   \* actions of a history

VARIABLES d,        \* demand per step
          open,     \* whether the export is unlimited
          limited,  \* whether the limit is in force
          relaxed,  \* whether B's state may lie between off and on
          duals,    \* whether dual values were asked for
          kept,     \* what was reported so far: sequence of outcomes
          hist      \* what was done
vars == <<d, open, limited, relaxed, duals, kept, hist>>

Demands == {1, 2, 5, 8}
Limit == 11
Top == 24  \* more is never supplied, unless without end
Steps == {1, 2}

-----------------------------------------------------------------------------
(* The optimum *)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* quarters of B's state that allow it to supply b
States(r, b) == {q \in IF r THEN 0..4 ELSE {0, 4} : q * 2 <= b * 4 /\ b <= q}
\* the least cost of supplying s in one step
Supply == [r \in BOOLEAN |-> [s \in 0..Top |->
  MinOf({9 * a + 4 * b + 3 * q + 20 * (s - a - b) :
         <<a, b, q>> \in {x \in (0..4) \X (0..4) \X (0..4) : x[1] + x[2] <= s /\ x[3] \in States(r, x[2])}})]]
\* pairs of supplies that are allowed
Most(x, i) == IF x.open THEN IF x.limited THEN Limit ELSE Top ELSE x.d[i] + 1
Supplies(x) == {s \in (x.d[1]..Most(x, 1)) \X (x.d[2]..Most(x, 2)) : x.limited => s[1] + s[2] <= Limit}
\* "infeasible", "unbounded" or "optimal"
Termination(x) ==
  IF x.limited /\ x.d[1] + x.d[2] > Limit THEN "infeasible"
  ELSE IF x.open /\ ~x.limited THEN "unbounded" ELSE "optimal"
\* the least cost of all, in quarters
Value(x) == MinOf({Supply[x.relaxed][s[1]] + Supply[x.relaxed][s[2]] - 24 * (s[1] - x.d[1] + s[2] - x.d[2]) : s \in Supplies(x)})
\* a dual value of the balance at step i is a slope of the least cost in the
\* demand of that step: [lo, hi], the latter only if more demand can be met
Slope(x, i) ==
  LET less == [x EXCEPT !.d[i] = @ - 1] more == [x EXCEPT !.d[i] = @ + 1] IN
  [lo |-> Value(x) - Value(less),
   hi |-> IF Termination(more) = "optimal" THEN <<Value(more) - Value(x)>> ELSE <<>>]

-----------------------------------------------------------------------------
(* Histories *)

Now == [d |-> d, open |-> open, limited |-> limited, relaxed |-> relaxed]
\* what solving now reports: a result, or that there is none, which is raised
\* as an error unless that is allowed explicitly
Report(x, allow) ==
  LET z == Termination(x) IN
  IF z = "optimal"
  THEN [kind |-> "results", why |-> z, cost |-> <<Value(x)>>,
        slopes |-> IF x.relaxed THEN [i \in Steps |-> Slope(x, i)] ELSE <<>>]
  ELSE [kind |-> IF allow THEN "raw" ELSE "error", why |-> z, cost |-> <<>>, slopes |-> <<>>]

Init == /\ d \in {<<1, 2>>, <<5, 2>>} /\ open = FALSE /\ limited = FALSE /\ relaxed = FALSE
        /\ duals = FALSE /\ kept = <<>> /\ hist = <<[act |-> [name |-> "build", d |-> d]]>>
Note(a) == hist' = Append(hist, [act |-> a])
Demand(i) == \E v \in Demands \ {d[i]} :
             /\ d' = [d EXCEPT ![i] = v] /\ Note([name |-> "demand", i |-> i, v |-> v])
             /\ UNCHANGED <<open, limited, relaxed, duals, kept>>
Open == /\ open' = ~open /\ Note([name |-> "open", v |-> open'])
        /\ UNCHANGED <<d, limited, relaxed, duals, kept>>
SetLimit == /\ limited' = ~limited /\ Note([name |-> "limit", v |-> limited'])
            /\ UNCHANGED <<d, open, relaxed, duals, kept>>
Relax == /\ ~relaxed /\ relaxed' = TRUE /\ Note([name |-> "relax"])
         /\ UNCHANGED <<d, open, limited, duals, kept>>
Duals == /\ ~duals /\ duals' = TRUE /\ Note([name |-> "duals"])
         /\ UNCHANGED <<d, open, limited, relaxed, kept>>
Solve(allow) ==
  LET r == Report(Now, allow) IN
  /\ kept' = Append(kept, r)
  /\ hist' = Append(hist, [act |-> [name |-> "solve", allow |-> allow], now |-> Now, duals |-> duals, report |-> r])
  /\ UNCHANGED <<d, open, limited, relaxed, duals>>

Next == /\ Len(hist) <= MaxLen
        /\ \/ \E i \in Steps : Demand(i)
           \/ Open \/ SetLimit \/ Relax \/ Duals
           \/ \E b \in BOOLEAN : Solve(b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what was reported stays what it is
Lasting == [][Len(kept') >= Len(kept) /\ SubSeq(kept', 1, Len(kept)) = kept]_vars
\* relaxing only widens the choice, and only of B's state
Wider == Termination(Now) = "optimal" =>
           LET r == [Now EXCEPT !.relaxed = TRUE] x == [Now EXCEPT !.relaxed = FALSE] IN
           Value(r) <= Value(x) /\ Termination(r) = Termination(x)
\* a limit only narrows it
Narrower == (~open /\ Termination([Now EXCEPT !.limited = TRUE]) = "optimal") =>
              Value([Now EXCEPT !.limited = FALSE]) <= Value([Now EXCEPT !.limited = TRUE])
\* without integrality the least cost is convex in the demand
Convex == relaxed /\ Termination(Now) = "optimal" =>
            \A i \in Steps : LET s == Slope(Now, i) IN s.hi = <<>> \/ s.lo <= s.hi[1]
\* no result is reported if there is none, no other plan is cheaper
Sound == \A i \in DOMAIN kept : (kept[i].kind = "results") <=> (kept[i].cost # <<>>)

Show == (Len(hist) = MaxLen + 1 /\ hist[Len(hist)].act.name = "solve") => PrintT("HIST " \o ToJson(hist))
=============================================================================
