----------------------------- MODULE TsamReplay -----------------------------
(***************************************************************************)
(* Trace validation with aggregated time series (see Replay).  A case may  *)
(* come with what was reported about it on the original time axis.         *)
(***************************************************************************)
EXTENDS Tsam, Json

CONSTANTS Cases,   \* [c, ok, obj, inv, ist, lv0, steps: seq of [v, st], rep: <<>> or <<R>>]
          OTOL

VARIABLES k, bad
rvars == <<tvars, k, bad>>
ASSUME Occurrences

Case == Cases[k]
RInit == /\ k \in 1..Len(Cases) /\ bad = {} /\ TInit /\ cid = Cases[k].c

RPlan ==
  /\ pc = "plan"
  /\ TPlanEffect(Case.inv, Case.ist, Case.lv0)
  /\ bad' = bad \cup PlanViolations(Case.inv, Case.ist, Case.lv0)
  /\ UNCHANGED k
RDispatch ==
  /\ pc = "run" /\ t <= T
  /\ TDispatchEffect(Case.steps[t].v, Case.steps[t].st)
  /\ bad' = bad \cup DispatchViolations(Case.steps[t].v, Case.steps[t].st, level)
                    \cup RecordedAtStep(Case.rec, Case.steps[t].st)
  /\ UNCHANGED k
RClose == TCloseEffect /\ bad' = bad \cup CloseViolations \cup RecordedAtEnd(Case.rec) /\ UNCHANGED k
RUnfold ==
  /\ UnfoldEffect
  /\ bad' = bad \cup UnfoldViolations
            \cup (IF Len(Case.rep) = 1 THEN Reported(Case.rep[1]) ELSE {})
  /\ UNCHANGED k

Abs(a) == RMax(a, RSub("0", a))
Verdict(b) ==
  CASE Case.ok /\ b # {} -> "forbidden"
    [] ~Case.ok /\ b = {} /\ ~late -> "rejected"
    [] Case.ok /\ b = {} /\ Case.obj # "" /\
       ~Near(Case.obj, cost, RMul(OTOL, RAdd("1", Abs(cost)))) -> "cost"
    [] OTHER -> "ok"

RFinish ==
  /\ FinishEffect
  /\ LET b == bad \cup FinishViolations
         x == Verdict(b) IN
     /\ bad' = b
     /\ IF x = "ok" THEN TRUE
        ELSE PrintT("BAD " \o ToJson([k |-> k, verdict |-> x, clauses |-> b,
                                      spec |-> RShow(cost), code |-> Case.obj]))
  /\ UNCHANGED k

RNext == RPlan \/ RDispatch \/ RClose \/ RUnfold \/ RFinish
=============================================================================
