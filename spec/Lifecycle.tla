----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* What is done with energy systems and models over time (C23, C24).       *)
(*                                                                         *)
(* An energy system is described by d and filled part by part: part 1 are  *)
(* its buses, part 2 its components, part 3 some further component.  A     *)
(* model stands for the description and the parts its system had when it   *)
(* was built, and for nothing else: not for the order of the parts, not    *)
(* for other models or systems, not for what is done later.  A dump is the *)
(* system as it was; restoring it makes a system that is equal to it and   *)
(* shares nothing with it, whatever the receiving one contained.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,       \* actions of a history
          MaxModels,
          WithFiles     \* whether systems are dumped and restored

VARIABLES es,     \* slot -> [d, parts: sequence, res: model whose results are kept, inc: which system]
          obj,    \* slot -> which object holds the system
          mods,   \* models in the order they were built: [d, parts: set, inc, obj, solved]
          file,   \* the dumped system, or Nothing
          incs,   \* number of systems there were
          hist    \* what was done: sequence of [act, es, mods]
vars == <<es, obj, mods, file, incs, hist>>

Slots == {1, 2}
Parts == {1, 2, 3}
Nothing == [d |-> 0, parts |-> <<>>, res |-> 0, inc |-> 0]
Range(q) == {q[i] : i \in DOMAIN q}
Perms(S) == {q \in [1..Cardinality(S) -> S] : Range(q) = S}
\* systems that can be modelled: every connected bus is part of them
Closed(x) == {1, 2} \subseteq Range(x.parts)

\* what a model stands for
Meaning(m) == [d |-> m.d, parts |-> m.parts]

Note(a) == hist' = Append(hist, [act |-> a,
             es |-> [e \in Slots |-> [d |-> es'[e].d, parts |-> Range(es'[e].parts), res |-> es'[e].res]],
             mods |-> [i \in DOMAIN mods' |-> [d |-> mods'[i].d, parts |-> mods'[i].parts, solved |-> mods'[i].solved]]])

Init == /\ es = [e \in Slots |-> [d |-> e, parts |-> <<>>, res |-> 0, inc |-> e]]
        /\ obj = [e \in Slots |-> e]
        /\ mods = <<>> /\ file = Nothing /\ incs = 2 /\ hist = <<>>

\* nodes are added to a system, several at once, in any order
Add(e) == /\ \E S \in SUBSET (Parts \ Range(es[e].parts)) : S # {} /\ \E q \in Perms(S) :
               /\ es' = [es EXCEPT ![e].parts = @ \o q]
               /\ UNCHANGED <<obj, mods, file, incs>>
               /\ Note([name |-> "add", e |-> e, q |-> q])
\* a model is built
Build(e) == /\ Closed(es[e]) /\ Len(mods) < MaxModels
            /\ mods' = Append(mods, [d |-> es[e].d, parts |-> Range(es[e].parts), inc |-> es[e].inc,
                                    obj |-> obj[e], solved |-> FALSE])
            /\ UNCHANGED <<es, obj, file, incs>>
            /\ Note([name |-> "build", e |-> e])
Solve(i) == /\ ~mods[i].solved
            /\ mods' = [mods EXCEPT ![i].solved = TRUE]
            /\ es' = [e \in Slots |-> IF obj[e] = mods[i].obj THEN [es[e] EXCEPT !.res = 0] ELSE es[e]]
            /\ UNCHANGED <<obj, file, incs>>
            /\ Note([name |-> "solve", m |-> i])
\* the results of a model are stored in its system
Keep(e, i) == /\ mods[i].solved /\ mods[i].inc = es[e].inc /\ mods[i].parts = Range(es[e].parts)
              /\ es[e].res # i
              /\ es' = [es EXCEPT ![e].res = i]
              /\ UNCHANGED <<obj, mods, file, incs>>
              /\ Note([name |-> "keep", e |-> e, m |-> i])
Dump(e) == /\ WithFiles /\ file # es[e]
           /\ file' = es[e]
           /\ UNCHANGED <<es, obj, mods, incs>>
           /\ Note([name |-> "dump", e |-> e])
\* a system is restored, into the object that is there or into a new one
Restore(e) == /\ WithFiles /\ file # Nothing
              /\ incs' = incs + 1
              /\ es' = [es EXCEPT ![e] = [file EXCEPT !.inc = incs + 1]]
              /\ \E fresh \in BOOLEAN :
                   /\ obj' = IF fresh THEN [obj EXCEPT ![e] = incs + 1] ELSE obj
                   /\ UNCHANGED <<mods, file>>
                   /\ Note([name |-> "restore", e |-> e, fresh |-> fresh])

Next == /\ Len(hist) < MaxLen
        /\ \/ \E e \in Slots : Add(e) \/ Build(e) \/ Dump(e) \/ Restore(e) \/ \E i \in DOMAIN mods : Keep(e, i)
           \/ \E i \in DOMAIN mods : Solve(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* building changes no system and no other model
PureBuild == [][Len(mods') > Len(mods) => es' = es /\ SubSeq(mods', 1, Len(mods)) = mods]_vars
\* what a model stands for never changes, nor does a solution
Lasting == [][\A i \in DOMAIN mods : Meaning(mods'[i]) = Meaning(mods[i]) /\ (mods[i].solved => mods'[i].solved)]_vars
\* only what is done to a system changes it
Separate == [][Cardinality({e \in Slots : es'[e] # es[e]}) <= 1 /\ obj[1] # obj[2]]_vars
\* the order of the parts has no meaning
Unordered == \A i, j \in DOMAIN mods : mods[i].d = mods[j].d /\ mods[i].parts = mods[j].parts => Meaning(mods[i]) = Meaning(mods[j])
\* a dumped system was there once, and results belong to their system
Faithful == /\ \A e \in Slots : es[e].res # 0 => mods[es[e].res].d = es[e].d /\ mods[es[e].res].parts \subseteq Range(es[e].parts)
            /\ file # Nothing => file.d \in Slots
            /\ \A e \in Slots : Cardinality(Range(es[e].parts)) = Len(es[e].parts)

Worth == hist # <<>> /\ mods # <<>> /\ hist[Len(hist)].act.name \in {"build", "solve", "restore", "keep"}
Show == (Worth /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))
=============================================================================
