---------------------------- MODULE TsamExplore ----------------------------
(***************************************************************************)
(* Every plan and every sequence of moves over the typical steps, unfolded *)
(* to the original horizon.                                                *)
(***************************************************************************)
EXTENDS Tsam, Json

VARIABLE path
xvars == <<tvars, path>>
ASSUME Occurrences

XInit == TInit /\ path = <<>>
XPlan == \E i \in 1..Len(C.plans) :
  LET p == C.plans[i] IN
  /\ pc = "plan" /\ PlanViolations(p.inv, p.ist, p.lv) = {}
  /\ TPlanEffect(p.inv, p.ist, p.lv)
  /\ path' = <<i>>
XDispatch == \E i \in 1..Len(C.moves) :
  LET m == C.moves[i] IN
  /\ pc = "run" /\ t <= T
  /\ DispatchViolations(m.v, m.st, level) = {}
  /\ TDispatchEffect(m.v, m.st)
  /\ path' = Append(path, i)
XClose == CloseViolations = {} /\ TCloseEffect /\ UNCHANGED path
XUnfold == pc = "unfold" /\ n <= N /\ UnfoldViolations = {} /\ UnfoldEffect /\ UNCHANGED path
XFinish ==
  /\ pc = "unfold" /\ n = N + 1
  /\ FinishViolations = {}
  /\ FinishEffect
  /\ UNCHANGED path
  /\ PrintT("BEH " \o ToJson([c |-> cid, h |-> path, cost |-> cost, late |-> late]))
XNext == XPlan \/ XDispatch \/ XClose \/ XUnfold \/ XFinish

-----------------------------------------------------------------------------
(* Independently: aggregation is only an economical way to write the plan  *)
(* of the original horizon                                                 *)

\* the operating cost is the cost of every original step, priced one by one
InvUnfoldedCost == pc = "done" /\ C.plain /\ ~C.multi =>
  cost = RAdd(PlanCost(plan.inv, plan.ist),
    RSum([m \in 1..N |-> LET k == C.orig[m] IN
      SumTo(Len(C.flows), LAMBDA f : RMul(hist[k].v[f], RMul(F(f).vc[k], C.w[k])))]))
\* so is the energy of a flow
InvUnfoldedEnergy == pc = "done" => \A f \in Flows :
  (Some(F(f).fltmax) \/ Some(F(f).fltmin)) =>
  energy[f] = RSum([m \in 1..N |-> RMul(hist[C.orig[m]].v[f], C.dt[C.orig[m]])])
\* without losses, only the net charge of each typical period matters
InvNetCharge == pc = "done" => \A s \in Stores :
  (\A k \in 1..T : S(s).loss[k] = "0" /\ S(s).flr[k] = "0" /\ S(s).fla[k] = "0") =>
  level[s] = RAdd(level0[s], RSum([k \in 1..T |->
     RMul(C.occ[k], RMul(C.dt[k], RSub(RMul(hist[k].v[S(s).fi], S(s).ein[k]),
                                       RDiv(hist[k].v[S(s).fo], S(s).eout[k]))))]))
\* at the end a storage that is balanced holds what it began with
InvBalanced == pc = "done" => \A s \in Stores :
  /\ RLe("0", level[s]) /\ RLe(level[s], StoreCap(s, P))
  /\ (S(s).bal /\ S(s).unit = 0 => level[s] = level0[s])
=============================================================================
