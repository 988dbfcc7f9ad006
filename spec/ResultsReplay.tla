---- MODULE ResultsReplay ----
(* every case is a valuation, and for every query what the real code returned *)
EXTENDS Results, Json, IOUtils, Load
Cases == Load(IOEnv.VERIF_CASES)
VARIABLES k, j
M == Cases[k].m
Judge(o) ==
  LET want == Answer(M, o.q) got == Range(o.a) IN
  IF want = got /\ Cardinality(want) = Len(o.a) THEN {}
  ELSE {[q |-> o.q, missing |-> (want \ got), extra |-> (got \ want)]}
RInit == k \in 1..Len(Cases) /\ j = 0
RNext == /\ j < Len(Cases[k].obs) /\ j' = j + 1 /\ UNCHANGED k
         /\ \A b \in Judge(Cases[k].obs[j + 1]) : PrintT("BAD " \o ToJson([k |-> k, j |-> j + 1, b |-> b]))
\* the laws of the projections hold for every recorded valuation
LawsHold == j = 0 => \A l \in {Laws(M)[i] : i \in 1..Len(Laws(M))} : Assert(l[2], <<"law", l[1], k>>)
====
