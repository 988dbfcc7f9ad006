------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* How a system may be put together (C27).                                 *)
(*                                                                         *)
(* Nodes 1..Buses are buses, the others are components between them, the   *)
(* last Loose of them with flows on one side only.  A node is made on its  *)
(* own or within a parent node, adopted by a parent later, and comes into  *)
(* the system with its outermost parent.  The flows of a loose component   *)
(* are declared where it is made, or at the bus, which may be made later.  *)
(* Labels are texts, or anything else that can be a key.  None of that     *)
(* matters: once everything is in the system, it is the same system.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Buses, Nodes, Loose
VARIABLES made,    \* nodes that exist
          up,      \* parent of a node, 0 without
          within,  \* nodes in the system
          hist
vars == <<made, up, within, hist>>
All == 1..Nodes
Bus == 1..Buses
Free == Nodes - Loose + 1 .. Nodes
Label == {"text", "tuple", "local"}   \* "local": a name within the parent
Side == {"component", "bus"}

RECURSIVE Above(_, _)
Above(n, u) == IF u[n] = 0 THEN {} ELSE {u[n]} \cup Above(u[n], u)
Inside(n, u) == {n} \cup {m \in All : n \in Above(m, u)}

Note(a) == hist' = Append(hist, [act |-> a, within |-> within'])
\* who holds a flow must know who is at the other end
Possible(n, s) == IF n \in Bus THEN s = "bus"
                  ELSE IF s = "bus" THEN n \in Free ELSE Bus \subseteq made

Init == made = {} /\ up = [n \in All |-> 0] /\ within = {} /\ hist = <<>>
Make == \E n \in All \ made, p \in made \cup {0}, l \in Label, s \in Side :
          /\ (l = "local" => p # 0)
          /\ Possible(n, s)
          /\ (n \notin Free => {m \in All : m < n} \ Free \subseteq made) \* names do not matter
          /\ made' = made \cup {n} /\ up' = [up EXCEPT ![n] = p]
          /\ within' = IF p \in within THEN within \cup {n} ELSE within
          /\ Note([name |-> "make", n |-> n, p |-> p, label |-> l, side |-> s])
Adopt == \E n \in made \ within, p \in made :
           /\ up[n] = 0 /\ p \notin Inside(n, up)
           /\ up' = [up EXCEPT ![n] = p]
           /\ within' = IF p \in within THEN within \cup Inside(n, up) ELSE within
           /\ UNCHANGED made
           /\ Note([name |-> "adopt", n |-> n, p |-> p])
\* one or several at a time
Add == \E q \in SUBSET {n \in made \ within : up[n] = 0} :
         /\ q # {}
         /\ within' = within \cup UNION {Inside(n, up) : n \in q}
         /\ UNCHANGED <<made, up>>
         /\ Note([name |-> "add", q |-> q])
Next == Make \/ Adopt \/ Add
Spec == Init /\ [][Next]_vars

Done == made = All /\ within = All
Rooted == \A n \in All : n \notin Above(n, up)
Together == \A n \in made : up[n] # 0 => (n \in within <=> up[n] \in within)
Growing == [][made \subseteq made' /\ within \subseteq within']_vars
Show == Done => PrintT("HIST " \o ToJson(hist))
=============================================================================
