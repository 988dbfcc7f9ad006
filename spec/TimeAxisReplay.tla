---- MODULE TimeAxisReplay ----
(* every case is a description and the axis the real code made of it *)
EXTENDS TimeAxis, Json, IOUtils, Load
Cases == Load(IOEnv.VERIF_CASES)
VARIABLE k
Judge(c) ==
  IF c.what = "axis" THEN
    LET want == Axis(c.d) IN
    IF want.ok # c.ok THEN <<IF want.ok THEN "refused" ELSE "accepted">>
    ELSE IF ~want.ok THEN <<>>
    ELSE SelectSeq(<<"points", "incs", "years", "durations", "end", "matrix", "steps">>,
         LAMBDA n : CASE n = "points" -> want.points # c.points
                      [] n = "incs" -> want.incs # c.incs
                      [] n = "years" -> want.per.years # c.years
                      [] n = "durations" -> want.per.durations # c.durations
                      [] n = "end" -> want.per.end # c.end
                      [] n = "matrix" -> want.per.matrix # c.matrix
                      [] OTHER -> want.per.steps # c.steps)
  ELSE
    LET want == YearIndex(c.d) IN
    IF want.ok # c.ok THEN <<IF want.ok THEN "refused" ELSE "accepted">>
    ELSE IF ~want.ok THEN <<>>
    ELSE SelectSeq(<<"count", "gap", "atYearEnd", "start">>,
         LAMBDA n : CASE n = "count" -> want.count # c.count
                      [] n = "gap" -> want.gap # c.mingap \/ want.gap # c.maxgap
                      [] n = "atYearEnd" -> want.atYearEnd # c.atYearEnd
                      [] OTHER -> ~c.atStart)
RInit == Init /\ desc = Empty("none", FALSE, FALSE) /\ k = 0
RNext == k < Len(Cases) /\ k' = k + 1 /\ UNCHANGED vars
         /\ LET b == Judge(Cases[k + 1]) IN b = <<>> \/ PrintT("BAD " \o ToJson([k |-> k + 1, clauses |-> b]))
====
