------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of EnergySystem for small systems: every plan in *)
(* C.plans, every sequence of moves in C.moves.  A completed behaviour is  *)
(* printed as one line `BEH {...}` for replay into the real code.          *)
(* The invariants restate, over the history of a behaviour, what the       *)
(* guards enforce step by step, in independent words.                      *)
(***************************************************************************)
EXTENDS EnergySystem, Json, Sequences

VARIABLE hist   \* <<plan index, move index, ...>>
evars == <<vars, hist>>

EInit == Init /\ hist = <<>>

DoPlan == \E i \in 1..Len(C.plans) :
  /\ LET p == C.plans[i] IN Plan(p.inv, p.ist, p.lv)
  /\ hist' = <<i>>

DoDispatch == \E i \in 1..Len(C.moves) :
  /\ pc = "run" /\ t <= T
  /\ LET m == C.moves[i] IN
     Dispatch(m.v, m.st, [s \in Stores |-> NextLevel(s, m.v)])
  /\ hist' = Append(hist, i)

DoClose ==
  /\ Close
  /\ hist' = hist
  /\ PrintT("BEH " \o ToJson([c |-> cid, h |-> hist, cost |-> cost, late |-> late]))

ENext == DoPlan \/ DoDispatch \/ DoClose

-----------------------------------------------------------------------------
(* The history of a behaviour *)
Steps == Len(hist) - 1
Val(f, k) == C.moves[hist[k + 1]].v[f]
St(f, k) == IF k = 0 THEN F(f).init ELSE C.moves[hist[k + 1]].st[f]
Past == 1..Steps

TypeOK ==
  /\ pc \in {"plan", "run", "done"}
  /\ t \in 1..(T + 1)
  /\ (pc = "run" => t = Steps + 1)

\* energy put into a balanced bus equals energy taken out, at every past step
InvBus == \A k \in Past, b \in 1..Len(C.buses) :
  C.buses[b].balanced =>
    RSum([i \in 1..Len(C.buses[b].ins) |-> Val(C.buses[b].ins[i], k)])
      = RSum([i \in 1..Len(C.buses[b].outs) |-> Val(C.buses[b].outs[i], k)])

\* a unidirectional flow never reverses
InvDirection == \A k \in Past, f \in Flows : F(f).uni => RLe("0", Val(f, k))

\* the flow of a unit that is off is zero
InvOff == \A k \in Past, f \in Flows :
  F(f).nc /\ St(f, k) = 0 /\ CapAt(f, 1) # "" => Val(f, k) = "0"

\* maximal runs: a unit that starts at k stays on up[k] steps, or to the end
InvMinUp == \A f \in Flows : F(f).nc => \A k \in Past :
  (St(f, k) = 1 /\ St(f, k - 1) = 0) =>
     \A j \in k..(k + F(f).up[k] - 1) : j <= Steps => St(f, j) = 1
InvMinDown == \A f \in Flows : F(f).nc => \A k \in Past :
  (St(f, k) = 0 /\ St(f, k - 1) = 1) =>
     \A j \in k..(k + F(f).dn[k] - 1) : j <= Steps => St(f, j) = 0
InvStarts == \A f \in Flows : F(f).nc =>
  /\ ups[f] = Cardinality({k \in Past : St(f, k) = 1 /\ St(f, k - 1) = 0})
  /\ downs[f] = Cardinality({k \in Past : St(f, k) = 0 /\ St(f, k - 1) = 1})
  /\ (F(f).maxup >= 0 => ups[f] <= F(f).maxup)
  /\ (F(f).maxdn >= 0 => downs[f] <= F(f).maxdn)

\* a storage never holds more or less than its limits allow, and without
\* losses its content is what was put in minus what was taken out
InvStore == pc # "plan" => \A s \in Stores :
  LET cap == StoreCap(s, IF t <= T THEN C.period[t] ELSE P) IN
  /\ (S(s).unit = 0 => RLe(RMul(cap, S(s).lmin[t]), level[s]) /\ RLe(level[s], RMul(cap, S(s).lmax[t])))
  /\ ((\A k \in 1..T : S(s).loss[k] = "0" /\ S(s).flr[k] = "0" /\ S(s).fla[k] = "0") =>
      level[s] = RAdd(level0[s], RSum([k \in 1..Steps |->
         RMul(C.dt[k], RSub(RMul(Val(S(s).fi, k), S(s).ein[k]),
                            RDiv(Val(S(s).fo, k), S(s).eout[k])))])))
InvBalanced == pc = "done" => \A s \in Stores :
  S(s).bal /\ ~(C.multi /\ S(s).unit # 0) => level[s] = level0[s]

\* capacity: the recursion total(p) = total(p-1) + bought(p) - retired(p)
\* equals the sum over what is alive
InvCapacity == pc # "plan" => \A u \in Units, p \in Periods : p > 1 =>
  Tot(u, p, plan.inv) =
    RSub(RAdd(Tot(u, p - 1, plan.inv), plan.inv[u][p]),
      RAdd(IF ExRetired(u, p) /\ ~ExRetired(u, p - 1) THEN U(u).ex ELSE "0",
           RSum([q \in Periods |->
              IF q < p /\ Retired(u, q, p) /\ ~Retired(u, q, p - 1)
              THEN plan.inv[u][q] ELSE "0"])))

\* the final cost of a system without investment, status and storage cost is
\* energy times price
InvCost == pc = "done" /\ Len(C.units) = 0 /\ ~C.multi /\ C.plain =>
  cost = RSum([k \in 1..T |-> RSum([f \in Flows |->
           RMul(Val(f, k), RMul(F(f).vc[k], RMul(C.w[k], C.occ[k])))])])
=============================================================================
