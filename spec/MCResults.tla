----------------------------- MODULE MCResults -----------------------------
(* Small valuations: every combination of kinds of variables, axes, duals.  *)
(* Values are all different, so any mix-up of two of them violates a law.   *)
EXTENDS Results
VARIABLE c
Shape == [T : 1..3, P : 0..2, flows : SUBSET {<<"a", "b">>, <<"b", "s">>, <<"s", "b">>, <<"b", "d">>},
          store : BOOLEAN, unit : {"none", "flow", "store"}, nc : BOOLEAN, onoff : BOOLEAN, duals : BOOLEAN]
Var(name, axis, ks, n, base) ==
  [name |-> name, axis |-> axis,
   cells |-> SetToSeq({[k |-> k, t |-> t, v |-> ToString(base + t + 10 * Len(k) + 100 * (CHOOSE i \in 1..Len(ks) : ks[i] = k))]
                       : k \in {ks[i] : i \in 1..Len(ks)}, t \in 1..n})]
Build(x) ==
  LET fs == SetToSeq(x.flows) multi == x.P > 0 P == IF multi THEN x.P ELSE 1
      unitKeys == CASE x.unit = "flow" /\ fs # <<>> -> <<fs[1]>> [] x.unit = "store" /\ x.store -> << <<"s">> >> [] OTHER -> <<>> IN
  [vars |-> (IF fs = <<>> THEN <<>> ELSE <<Var("flow", "steps", fs, x.T, 1000)>>)
         \o (IF x.store THEN <<Var("storage_content", "points", << <<"s">> >>, x.T + 1, 2000),
                               Var("storage_losses", "steps", << <<"s">> >>, x.T, 3000)>> ELSE <<>>)
         \o (IF unitKeys = <<>> THEN <<>> ELSE <<Var("invest", "periods", unitKeys, P, 4000),
                                               Var("total", "periods", unitKeys, P, 5000)>>)
         \o (IF unitKeys = <<>> \/ ~x.nc THEN <<>> ELSE <<Var("invest_status", "periods", unitKeys, P, 6000)>>)
         \o (IF x.onoff /\ fs # <<>> THEN <<Var("status", "steps", <<fs[1]>>, x.T, 7000)>> ELSE <<>>),
   points |-> [i \in 1..(IF multi THEN x.T ELSE x.T + 1) |-> "p" \o ToString(i)],
   T |-> x.T, multi |-> multi, years |-> [i \in 1..P |-> ToString(2019 + 2 * i)],
   vc |-> [i \in 1..Len(fs) |-> [k |-> fs[i], c |-> [t \in 1..x.T |-> ToString(i + t)]]], w |-> [t \in 1..x.T |-> "1/2"],
   units |-> [i \in 1..Len(unitKeys) |-> [k |-> unitKeys[i], ep |-> [p \in 1..P |-> ToString(p)], off |-> [p \in 1..P |-> "3"], nc |-> x.nc]],
   duals |-> IF x.duals THEN [t \in 1..x.T |-> [bus |-> "b", t |-> t, v |-> ToString(8000 + t)]] ELSE <<>>,
   isa |-> [a |-> <<"Source">>, b |-> <<"Bus">>, s |-> <<"GenericStorage">>, d |-> <<"Sink">>],
   given |-> <<>>, solverKeys |-> <<>>, objective |-> "0"]
Plain(x) == [x EXCEPT !.store = FALSE, !.unit = "none", !.nc = FALSE, !.onoff = FALSE, !.duals = FALSE]
Init == c \in {x \in Shape : x = Plain(x)}
Next == c = Plain(c) /\ \E s, n, o, d \in BOOLEAN, u \in {"none", "flow", "store"} :
          c' = [c EXCEPT !.store = s, !.unit = u, !.nc = n, !.onoff = o, !.duals = d]
M == Build(c)
LawsHold == \A l \in {Laws(M)[i] : i \in 1..Len(Laws(M))} : Assert(l[2], <<"law", l[1]>>)
\* what flows into the nodes of a class is what flows out of others
Classes == {"Source", "Bus", "GenericStorage", "Sink"}
Both == LET fl == {e \in Seqs(M) : e[3] # None} IN
  /\ UNION {InputsOf(M, k) : k \in Classes} = fl
  /\ UNION {OutputsOf(M, k) : k \in Classes} = fl
  /\ UNION {WeightsOf(M, k) : k \in Classes} = Seqs(M) \ fl
\* the names of the results are the variables and what is computed from them
Named == \A n \in Names(M) : Table(M, n) # {} /\ <<n>> \in Answer(M, [op |-> "keys"])
=============================================================================
