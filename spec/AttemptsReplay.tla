---- MODULE AttemptsReplay ----
(* every case is a sequence of attempts and what the real code made of them *)
EXTENDS Attempts, IOUtils, Load
Cases == Load(IOEnv.VERIF_CASES)
VARIABLES k, j
H == Cases[k]
SetOf(q) == {q[i] : i \in DOMAIN q}
Judge(h, o, old) ==
  LET bad(n, b) == IF b THEN {} ELSE {n} IN
  bad("kind:" \o h.s \o ":" \o h.c, o.kind \in Outcomes(h.s, h.c, h.allow))
  \cup bad("warned", o.kind \in {"raw"} <=> o.warned)
  \cup bad("lastAttempt", o.last)
  \cup bad("options", SetOf(o.options) = SetOf(h.options))
  \cup bad("kwargs", SetOf(o.kwargs) = SetOf(h.kwargs))
  \cup bad("operation", o.kind = "results" => o.v = h.v /\ o.objective = 5 * h.v)
  \cup bad("kept", o.kept = old)
RInit == Init /\ k \in 1..Len(Cases) /\ j = 0
RNext == /\ j < Len(H) /\ j' = j + 1 /\ UNCHANGED <<k, hist>>
         /\ LET b == Judge(H[j + 1], H[j + 1].obs, kept) IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([k |-> k, j |-> j + 1, clauses |-> b]))
         /\ kept' = IF H[j + 1].obs.kind = "results" THEN Append(kept, [v |-> H[j + 1].obs.v, objective |-> H[j + 1].obs.objective]) ELSE kept
====
