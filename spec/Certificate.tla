---- MODULE Certificate ----
(***************************************************************************)
(* Dual values certify an optimum (C26).  A case is a linear program and   *)
(* the solution and dual values that were reported for it:                 *)
(*   rows  [eq, rhs, a: sequence of [j, v], y]   sum <= rhs (eq: = rhs)     *)
(*   cols  [c, lo, hi, x]                        lo/hi "" for none          *)
(* The solution is admissible, the dual values price every activity at no  *)
(* more than its cost (no less when it is at its upper bound), and only    *)
(* what is scarce has a price: then no admissible x is cheaper, and the    *)
(* dual values are the marginal costs of the right hand sides.             *)
(***************************************************************************)
EXTENDS Rat, TLC, Json, IOUtils, Load, FiniteSets
CONSTANT TOL
Cases == Load(IOEnv.VERIF_CASES)
VARIABLES k, j

LeT(a, b) == RLe(a, RAdd(b, TOL))
EqT(a, b) == Near(a, b, TOL)
Row(c, i) == RSum([n \in 1..Len(c.rows[i].a) |-> RMul(c.rows[i].a[n].v, c.cols[c.rows[i].a[n].j].x)])
\* cost of an activity that its effects on scarce things do not explain
Reduced(c, n) == RSub(c.cols[n].c, RSum([i \in 1..Len(c.at[n]) |-> RMul(c.at[n][i].v, c.rows[c.at[n][i].i].y)]))
AtLo(x) == x.lo # "" /\ EqT(x.x, x.lo)
AtHi(x) == x.hi # "" /\ EqT(x.x, x.hi)

RowFine(c, i) ==
  LET r == c.rows[i] s == Row(c, i) IN
  (IF r.eq THEN EqT(s, r.rhs) ELSE LeT(s, r.rhs)) /\ (r.eq \/ LeT(r.y, "0")) /\ (r.eq \/ EqT(r.y, "0") \/ EqT(s, r.rhs))
ColFine(c, n) ==
  LET x == c.cols[n] d == Reduced(c, n) IN
  /\ x.lo = "" \/ LeT(x.lo, x.x)
  /\ x.hi = "" \/ LeT(x.x, x.hi)
  /\ EqT(d, "0") \/ (RLt("0", d) /\ AtLo(x)) \/ (RLt(d, "0") /\ AtHi(x))

Init == k \in 1..Len(Cases) /\ j = 0
Next == /\ j = 0 /\ j' = 1 /\ UNCHANGED k
        /\ LET c == Cases[k]
               rows == {i \in 1..Len(c.rows) : ~RowFine(c, i)}
               cols == {n \in 1..Len(c.cols) : ~ColFine(c, n)} IN
           IF rows = {} /\ cols = {} THEN TRUE
           ELSE PrintT("BAD " \o ToJson([k |-> k, rows |-> {c.rows[i].name : i \in rows}, cols |-> {c.cols[n].name : n \in cols}]))
====
