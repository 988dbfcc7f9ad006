------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation: every case is a complete plan that the real code was  *)
(* asked to execute (all flows, states and investments given) together     *)
(* with what it answered: feasible or not, the storage contents, the       *)
(* objective value.  The case is executed with the actions of EnergySystem *)
(* and the answer compared.  The verdict is total: a case that breaks a    *)
(* clause goes on, collecting the names of the clauses.                    *)
(***************************************************************************)
EXTENDS EnergySystem, Json, Sequences

CONSTANTS Cases,   \* [c, ok, obj, inv, ist, lv0, steps: seq of [v, st, lv]]
          OTOL     \* relative tolerance of the objective

VARIABLES k, bad
rvars == <<vars, k, bad>>

Case == Cases[k]
RInit == /\ k \in 1..Len(Cases) /\ bad = {} /\ Init /\ cid = Cases[k].c

RPlan ==
  /\ pc = "plan"
  /\ PlanEffect(Case.inv, Case.ist, Case.lv0)
  /\ bad' = bad \cup PlanViolations(Case.inv, Case.ist, Case.lv0)
  /\ UNCHANGED k

RDispatch ==
  /\ pc = "run" /\ t <= T
  /\ LET e == Case.steps[t]
         lv == IF Len(e.lv) = 0 THEN [s \in Stores |-> NextLevel(s, e.v)] ELSE e.lv IN
     /\ DispatchEffect(e.v, e.st, lv)
     /\ bad' = bad \cup DispatchViolations(e.v, e.st, lv) \cup RecordedAtStep(Case.rec, e.st)
  /\ UNCHANGED k

Abs(a) == RMax(a, RSub("0", a))
Verdict(b) ==
  CASE Case.ok /\ b # {} -> "forbidden"
    [] ~Case.ok /\ b = {} /\ ~late -> "rejected"
    [] Case.ok /\ b = {} /\ Case.obj # "" /\
       ~Near(Case.obj, cost, RMul(OTOL, RAdd("1", Abs(cost)))) -> "cost"
    [] OTHER -> "ok"

RClose ==
  /\ CloseEffect
  /\ LET b == bad \cup CloseViolations \cup RecordedAtEnd(Case.rec)
         x == Verdict(b) IN
     /\ bad' = b
     /\ IF x = "ok" THEN TRUE
        ELSE PrintT("BAD " \o ToJson([k |-> k, verdict |-> x, clauses |-> b,
                                      spec |-> RShow(cost), code |-> Case.obj]))
  /\ UNCHANGED k

RNext == RPlan \/ RDispatch \/ RClose
=============================================================================
