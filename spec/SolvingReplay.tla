---- MODULE SolvingReplay ----
(* every case is a history of Solving and what the real code reported on the way *)
EXTENDS Solving, Rat, IOUtils, Load
Cases == Load(IOEnv.VERIF_CASES)
TOL == "1/100000"
VARIABLES k, j
H == Cases[k].steps

LeT(a, b) == RLe(a, RAdd(b, TOL))
EqT(a, b) == Near(a, b, TOL)
R(n) == Q(n, 1)
\* a reported plan p: for both steps [a, b, g, e, y, l]
Admissible(x, p) ==
  /\ \A i \in Steps : LET s == p[i] IN
       /\ LeT("0", s.a) /\ LeT(s.a, "4") /\ LeT("0", s.g) /\ LeT("0", s.e)
       /\ LeT(RMul("2", s.y), s.b) /\ LeT(s.b, RMul("4", s.y))
       /\ LeT("0", s.y) /\ LeT(s.y, "1") /\ (x.relaxed \/ NearInt(s.y, TOL))
       /\ (x.open \/ LeT(s.e, "1"))
       /\ EqT(s.l, R(x.d[i]))
       /\ EqT(RAdd(s.a, RAdd(s.b, s.g)), RAdd(s.l, s.e))
  /\ (x.limited => LeT(RSum([n \in 1..6 |-> LET s == p[((n - 1) % 2) + 1] IN <<s.a, s.b, s.g>>[((n - 1) \div 2) + 1]]), R(Limit)))
Cost(p) == RSum([i \in Steps |-> RSum(<<RMul("9/4", p[i].a), p[i].b, RMul("3", p[i].y), RMul("5", p[i].g), RMul("-6", p[i].e)>>)])
In(v, s) == LeT(Q(s.lo, 4), v) /\ (s.hi = <<>> \/ LeT(v, Q(s.hi[1], 4)))

\* what is wrong with the outcome o of a solve, of which the specification says h.report
Judge(h, o, old) ==
  LET r == Report(h.now, h.act.allow) bad(n, b) == IF b THEN {} ELSE {n} IN
  bad("history", r = h.report)
  \cup bad("kind:" \o r.kind \o ":" \o r.why, o.kind = r.kind)
  \cup (IF o.kind # r.kind THEN {}
        ELSE bad("warned", o.warned = (r.kind = "raw"))
             \cup bad("lastAttempt", o.last)
             \cup (IF r.kind # "results" THEN bad("termination", o.term # "optimal")
                   ELSE bad("termination", o.term = "optimal")
                        \cup bad("objective", EqT(o.objective, Q(r.cost[1], 4)))
                        \cup bad("meta", EqT(o.meta, o.objective))
                        \cup bad("plan", Admissible(h.now, o.plan))
                        \cup bad("cost", EqT(o.objective, Cost(o.plan)))
                        \cup bad("processed", o.processed = o.plan)
                        \cup (IF h.duals /\ h.now.relaxed
                              THEN bad("duals", Len(o.duals) = 2 /\ \A i \in Steps : In(o.duals[i], r.slopes[i])) ELSE {})))
  \* what was reported before is what it was
  \cup UNION { bad("kept", o.kept[i] = old[i]) : i \in DOMAIN old }

RInit == Init /\ d = <<1, 2>> /\ k \in 1..Len(Cases) /\ j = 0
RNext == /\ j < Len(H) /\ j' = j + 1
         /\ LET h == H[j + 1] IN
            IF h.act.name # "solve" THEN UNCHANGED kept
            ELSE /\ LET b == Judge(h, h.obs, kept) IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([k |-> k, j |-> j + 1, clauses |-> b]))
                 /\ kept' = IF h.obs.kind = "results" THEN Append(kept, [objective |-> h.obs.objective, plan |-> h.obs.plan]) ELSE kept
         /\ UNCHANGED <<k, d, open, limited, relaxed, duals, hist>>
====
