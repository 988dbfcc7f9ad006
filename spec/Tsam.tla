-------------------------------- MODULE Tsam --------------------------------
(***************************************************************************)
(* Systems with aggregated time series.                                    *)
(*                                                                         *)
(* The steps of EnergySystem are the *typical* steps.  C.orig lists, for   *)
(* every step of the original horizon in its order, the typical step that  *)
(* represents it (C.oper: its period).  A plan is carried out in two       *)
(* passes:                                                                 *)
(*   Plan, Dispatch ... Dispatch, TClose    the typical steps, where every *)
(*        step counts in costs and energy sums as often as it stands for   *)
(*        an original one (C.occ);                                         *)
(*   Unfold ... Unfold, Finish              the original steps, where the  *)
(*        storages follow: the content is carried on through the sequence  *)
(*        of typical steps, whatever typical period each of them is in.    *)
(*                                                                         *)
(* What is reported lives on a finer axis still: a typical step may be a   *)
(* segment of C.seg[n] original points.                                    *)
(***************************************************************************)
EXTENDS EnergySystem, Sequences

VARIABLES hist,  \* flows of the typical steps
          n      \* next original step
tvars == <<vars, hist, n>>

N == Len(C.orig)

\* every typical step represents as many original steps as it occurs
Occurrences == \A i \in 1..Len(Configs) : LET A == Configs[i] IN
  /\ \A k \in 1..A.T : A.occ[k] = I2R(Cardinality({j \in 1..Len(A.orig) : A.orig[j] = k}))
  /\ \A j \in 1..Len(A.orig) : A.period[A.orig[j]] = A.oper[j]

TInit == Init /\ hist = <<>> /\ n = 1

TPlanEffect(inv, ist, lv) == PlanEffect(inv, ist, lv) /\ UNCHANGED <<hist, n>>
TDispatchEffect(v, st) ==
  /\ DispatchEffect(v, st, level)
  /\ hist' = Append(hist, [v |-> v, st |-> st])
  /\ UNCHANGED n
TCloseEffect ==
  /\ pc = "run" /\ t = T + 1
  /\ pc' = "unfold"
  /\ UNCHANGED <<cid, t, plan, prev, on, holdOn, holdOff, late, ups, downs,
                 level, level0, caes, energy, acc, cost, hist, n>>

-----------------------------------------------------------------------------
(* The original horizon *)

K == C.orig[n]           \* the typical step of the current original step
Here == C.oper[n]        \* its period

Carried(s) ==
  LET st == S(s) v == hist[K].v cap == StoreCap(s, Here) d == C.dt[K] IN
  RAdd(RMul(level[s], RPow(RSub("1", st.loss[K]), d)),
    RMul(d, RSub(RSub(RMul(v[st.fi], st.ein[K]), RDiv(v[st.fo], st.eout[K])),
                 RAdd(RMul(st.flr[K], cap), st.fla[K]))))

\* the content at the beginning of a step is within the limits of that step,
\* the final content within the capacity
UnfoldStore(s) ==
  LET st == S(s) cap == StoreCap(s, Here) x == level[s] IN
  (IF n = 1 THEN {} \* a matter of Plan
   ELSE Req(LeT(RMul(cap, st.lmin[n]), x), "store.min:" \o st.name)
        \cup Req(LeT(x, RMul(cap, st.lmax[n])), "store.max:" \o st.name))
\* taps and inlets that depend on the content do so in every original step
UnfoldLimit(L) ==
  IF L.kind # "levels" THEN {}
  ELSE LET v == hist[K].v cap == S(L.store).nom IN
    UNION { Req(LeT(v[L.outs[i].f], "0") \/ LeT(RMul(L.outs[i].lv, cap), Carried(L.store)), "limit.levelOut")
            : i \in 1..Len(L.outs) }
    \cup
    UNION { Req(LeT(v[L.ins[i].f], "0") \/ LeT(level[L.store], RMul(L.ins[i].lv, cap)), "limit.levelIn")
            : i \in 1..Len(L.ins) }
UnfoldViolations == UNION { UnfoldStore(s) : s \in Stores } \cup UNION { UnfoldLimit(C.limits[k]) : k \in Limits }

UnfoldEffect ==
  /\ pc = "unfold" /\ n <= N
  /\ n' = n + 1
  /\ level' = [s \in Stores |-> Carried(s)]
  /\ cost' = RAdd(cost, SumTo(Len(C.stores), LAMBDA s :
       IF IsZero(S(s).sc[K]) THEN "0" ELSE RMul(level'[s], S(s).sc[K])))
  /\ UNCHANGED <<cid, pc, t, plan, prev, on, holdOn, holdOff, late, ups, downs,
                 level0, caes, energy, acc, hist>>

FinishStore(s) ==
  LET st == S(s) IN
  Req(LeT("0", level[s]), "store.min:" \o st.name)
  \cup Req(LeT(level[s], StoreCap(s, C.oper[N])), "store.max:" \o st.name)
  \cup Req(st.bal /\ st.unit = 0 => EqT(level[s], level0[s]), "store.balanced:" \o st.name)
FinishViolations == UNION { FinishStore(s) : s \in Stores }

FinishEffect ==
  /\ pc = "unfold" /\ n = N + 1
  /\ pc' = "done"
  /\ UNCHANGED <<cid, t, plan, prev, on, holdOn, holdOff, late, ups, downs,
                 level, level0, caes, energy, acc, cost, hist, n>>

-----------------------------------------------------------------------------
(* What is reported: R = [axis, flows, status, soc], sequences over the      *)
(* points of the finer axis (statuses: empty for flows without)              *)

Fine(m) == C.fine[m]                    \* first point of original step m
Points == C.fine[N] + C.seg[N] - 1
\* the time stamps (hours since the first): every period starts at its own
AxisClauses(R) ==
  Req(Len(R.axis) = Points /\
      \A m \in 1..N : \A j \in 0..(C.seg[m] - 1) :
        LET first == CHOOSE q \in 1..N : C.oper[q] = C.oper[m]
                                         /\ \A r \in 1..N : C.oper[r] = C.oper[m] => r >= q IN
        R.axis[Fine(m) + j] = RAdd(C.pstart[C.oper[m]], RMul(C.freq, I2R(Fine(m) - Fine(first) + j))),
      "reported.axis")
\* each original point with the values of the typical step that represents it
FlowsReported(R) ==
  UNION { Req(Len(R.flows[f]) >= Fine(n) + C.seg[n] - 1 /\
              \A j \in 0..(C.seg[n] - 1) : Near(R.flows[f][Fine(n) + j], hist[K].v[f], TOL),
              "reported.flow:" \o F(f).name) : f \in Flows }
  \cup UNION { Req(F(f).nc =>
              Len(R.status[f]) >= Fine(n) + C.seg[n] - 1 /\
              \A j \in 0..(C.seg[n] - 1) : Near(R.status[f][Fine(n) + j], I2R(hist[K].st[f]), TOL),
              "reported.status:" \o F(f).name) : f \in Flows }
\* the content at the beginning of every step, linear in between
SocReported(R) ==
  UNION { Req(Len(R.soc[s]) >= Fine(n) + C.seg[n] - 1 /\
              \A j \in 0..(C.seg[n] - 1) :
                Near(R.soc[s][Fine(n) + j],
                     RAdd(level[s], RMul(Q(j, C.seg[n]), RSub(Carried(s), level[s]))), TOL),
              "reported.soc:" \o S(s).name) : s \in Stores }
Reported(R) == FlowsReported(R) \cup SocReported(R) \cup (IF n = 1 THEN AxisClauses(R) ELSE {})
=============================================================================
