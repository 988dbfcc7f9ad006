------------------------------ MODULE TimeAxis ------------------------------
(***************************************************************************)
(* The time axis of an energy system.                                      *)
(*                                                                         *)
(* A description of a time axis is put together step by step (points of an *)
(* index or lengths of steps, with or without a frequency, periods).  Axis *)
(* says what has to become of it: the points and steps of the model, or a  *)
(* rejection.  Times are integers (minutes); years are integers.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Gaps,        \* gaps that are tried between points, as lengths of steps
          MaxPoints,   \* longest index
          MaxPeriods,  \* number of periods
          YearGaps     \* years from one time stamp of a period to the next

(***************************************************************************)
(* Calendar                                                                *)
(***************************************************************************)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
YearMinutes(y) == (IF Leap(y) THEN 366 ELSE 365) * 24 * 60

(***************************************************************************)
(* Axis                                                                    *)
(*                                                                         *)
(* d.kind   "datetime", "numeric" or "none" (no index given)               *)
(* d.points the index                                                      *)
(* d.freq   the index carries a frequency; its next point after the last   *)
(*          is then d.next                                                 *)
(* d.infer  the last interval is to be inferred                            *)
(* d.given  lengths of steps are given: d.incs                             *)
(* d.years  <<>> or, for each period, the years of its time stamps         *)
(***************************************************************************)
Last(s) == s[Len(s)]
Diff(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
RECURSIVE Cum(_, _)
Cum(s, i) == IF i = 0 THEN 0 ELSE Cum(s, i - 1) + s[i]
Constant(s) == \A i \in 1..Len(s) : s[i] = s[1]
Reject == [ok |-> FALSE]

\* the index after the last interval was inferred; <<>> if it cannot be
Extended(d) ==
  IF d.kind # "datetime" THEN <<>>
  ELSE IF d.freq THEN Append(d.points, d.next)
  ELSE IF Len(d.points) >= 3 /\ Constant(Diff(d.points))
       THEN Append(d.points, 2 * Last(d.points) - d.points[Len(d.points) - 1])
  ELSE <<>>

Multi(d) == Len(d.years) > 0
Min(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Max(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]

PeriodsOf(d) ==
  LET n == Len(d.years)
      start == [p \in 1..n |-> Min(d.years[p]) - Min(d.years[1])]
      dur == [p \in 1..n |-> Max(d.years[p]) - Min(d.years[p]) + 1]
      first == [p \in 1..n |-> Cum([q \in 1..n |-> Len(d.years[q])], p - 1)] IN
  [years |-> start, durations |-> dur, end |-> start[n] + dur[n],
   matrix |-> [p \in 1..n |-> [q \in 1..n |-> IF start[q] > start[p] THEN start[q] - start[p] ELSE 0]],
   steps |-> [p \in 1..n |-> [i \in 1..Len(d.years[p]) |-> first[p] + i]]]
OnePeriod(n) ==
  [years |-> <<>>, durations |-> <<>>, end |-> 1, matrix |-> <<>>, steps |-> <<[i \in 1..n |-> i]>>]

Axis(d) ==
  IF d.kind # "none" /\ d.given /\ ~Multi(d) THEN Reject        \* ambiguous
  ELSE IF d.kind = "none" /\ ~d.given THEN Reject               \* undefined
  ELSE LET pts == IF d.kind = "none" THEN [i \in 1..(Len(d.incs) + 1) |-> Cum(d.incs, i - 1)]
                  ELSE IF d.infer THEN Extended(d) ELSE d.points
           incs == IF d.given THEN d.incs ELSE Diff(pts) IN
       IF Len(pts) = 0 THEN Reject                              \* cannot be inferred
       ELSE IF Len(incs) = 0 THEN Reject                        \* no step at all
       ELSE IF \E i \in 1..Len(incs) : incs[i] <= 0 THEN Reject \* unordered
       ELSE [ok |-> TRUE, points |-> pts, incs |-> incs,
             per |-> IF Multi(d) THEN PeriodsOf(d) ELSE OnePeriod(Len(incs))]

(***************************************************************************)
(* The helper that creates an index for a year (or from a start), in       *)
(* minutes after its first point.                                          *)
(***************************************************************************)
Nearest(a, b) == (2 * a + b) \div (2 * b)
YearIndex(h) ==
  IF h.hasYear /\ h.hasStart THEN Reject
  ELSE LET n == IF h.number >= 0 THEN h.number
                ELSE Nearest(YearMinutes(h.year), h.interval) IN
       [ok |-> TRUE, count |-> n + 1, gap |-> IF n = 0 THEN 0 ELSE h.interval,
        atYearEnd |-> h.hasYear /\ n * h.interval = YearMinutes(h.year)]

(***************************************************************************)
(* Behaviours: a description is written down, then used.                   *)
(***************************************************************************)
VARIABLES stage, desc, axis
vars == <<stage, desc, axis>>
Empty(kind, freq, infer) ==
  [kind |-> kind, points |-> <<>>, freq |-> freq, next |-> 0, infer |-> infer,
   given |-> FALSE, incs |-> <<>>, years |-> <<>>]
Init == /\ stage = "describe" /\ axis = Reject
        /\ \E kind \in {"datetime", "numeric", "none"}, freq \in BOOLEAN, infer \in BOOLEAN :
             /\ (freq => kind = "datetime")
             /\ desc = Empty(kind, freq, infer)

FirstPoint == /\ desc.kind # "none" /\ desc.points = <<>>
              /\ \E g \in Gaps \ {0} :
                   /\ (~desc.freq => g = 60)
                   /\ desc' = [desc EXCEPT !.points = <<60>>, !.next = 60 + g]
AddPoint == /\ Len(desc.points) \in 1..(MaxPoints - 1) /\ ~desc.given
            /\ \E g \in Gaps :
                 LET x == Last(desc.points) + g IN
                 /\ (desc.freq => x = desc.next)
                 /\ desc' = [desc EXCEPT !.points = Append(@, x), !.next = x + g]
AddIncrement == /\ Len(desc.incs) < MaxPoints - 1 /\ Len(desc.points) \in {0, 2}
                /\ Len(desc.years) = 0 /\ (desc.kind # "none" => ~desc.given)
                /\ \E g \in Gaps : desc' = [desc EXCEPT !.given = TRUE, !.incs = Append(@, g)]
\* multi-period: as many time stamps as steps; each period in one or more years
AddPeriod == /\ desc.given /\ Len(desc.years) < MaxPeriods
             /\ desc.kind = "none" /\ \A i \in 1..Len(desc.incs) : desc.incs[i] \in {60}
             /\ LET used == Cum([q \in 1..Len(desc.years) |-> Len(desc.years[q])], Len(desc.years))
                    before == IF Len(desc.years) = 0 THEN 2020 ELSE Last(Last(desc.years)) IN
                \E n \in 1..2, a \in YearGaps, b \in YearGaps :
                  /\ used + n <= Len(desc.incs)
                  /\ (Len(desc.years) = 0 => a = 0) /\ (n = 1 => b = 0)
                  /\ desc' = [desc EXCEPT !.years = Append(@,
                        IF n = 1 THEN <<before + a>> ELSE <<before + a, before + a + b>>)]
Describe == stage = "describe" /\ (FirstPoint \/ AddPoint \/ AddIncrement \/ AddPeriod)
            /\ UNCHANGED <<stage, axis>>
Complete(d) ==
  /\ (d.kind # "none" => Len(d.points) > 0)
  /\ (Multi(d) => Cum([q \in 1..Len(d.years) |-> Len(d.years[q])], Len(d.years)) = Len(d.incs))
Create == /\ stage = "describe" /\ Complete(desc)
          /\ stage' = "created" /\ axis' = Axis(desc) /\ UNCHANGED desc
Next == Describe \/ Create

(***************************************************************************)
(* What a user relies on, said without reference to how Axis computes it.  *)
(***************************************************************************)
Steps == Len(axis.incs)
Accepted == stage = "created" /\ axis.ok
InvPoints == Accepted => Len(axis.points) = Steps + 1
InvGiven == Accepted /\ desc.kind # "none" =>
  /\ Len(axis.points) = Len(desc.points) + (IF desc.infer THEN 1 ELSE 0)
  /\ SubSeq(axis.points, 1, Len(desc.points)) = desc.points
InvOrdered == Accepted => \A i \in 1..Steps : axis.points[i] < axis.points[i + 1]
InvLength == Accepted => Cum(axis.incs, Steps) = Last(axis.points) - axis.points[1]
InvSameLast == Accepted /\ desc.infer /\ Steps > 1 /\ desc.kind = "datetime" =>
  axis.incs[Steps] = axis.incs[Steps - 1]
InvPartition == Accepted => LET st == axis.per.steps IN
  /\ \A i \in 1..Steps : Cardinality({p \in 1..Len(st) : \E j \in 1..Len(st[p]) : st[p][j] = i}) = 1
  /\ \A p \in 1..Len(st) : \A j \in 1..Len(st[p]) : st[p][j] \in 1..Steps
InvYears == Accepted /\ Multi(desc) => \A p \in 1..Len(desc.years) :
  /\ axis.per.years[1] = 0
  /\ axis.per.matrix[1][p] = axis.per.years[p]
  /\ axis.per.end >= axis.per.years[p] + axis.per.durations[p]
  /\ axis.per.end = 1 + Last(Last(desc.years)) - desc.years[1][1]
\* an ordered, unambiguous description is never rejected
InvUsable == stage = "created" /\ ~axis.ok =>
  \/ desc.kind = "none" /\ ~desc.given
  \/ desc.kind # "none" /\ desc.given
  \/ \E i \in 1..Len(desc.incs) : desc.incs[i] <= 0
  \/ \E i \in 2..Len(desc.points) : desc.points[i] <= desc.points[i - 1]
  \/ Len(desc.points) = 1 /\ ~desc.infer
  \/ desc.infer /\ ~desc.freq /\ (desc.kind = "numeric" \/ Len(desc.points) < 3 \/ ~Constant(Diff(desc.points)))
  \/ desc.infer /\ desc.freq /\ desc.next <= Last(desc.points)
=============================================================================
