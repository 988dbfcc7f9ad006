------------------------------ MODULE Attempts ------------------------------
(***************************************************************************)
(* How solving ends (C26): whatever a solver says, only a solution that it *)
(* calls optimal is returned as the results.  An attempt is a pair of      *)
(* status and termination condition, together with the operation v that    *)
(* the solver left in the model and the options that were given to it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLES hist, kept   \* attempts; operations of the results that were returned
vars == <<hist, kept>>

Statuses == {"ok", "warning", "error", "aborted", "unknown"}
Synonyms == {"optimal", "globallyOptimal", "locallyOptimal"}
Without == {"unknown", "maxTimeLimit", "maxIterations", "minFunctionValue", "minStepLength", "feasible",
            "maxEvaluations", "other", "unbounded", "infeasible", "infeasibleOrUnbounded", "invalidProblem",
            "intermediateNonInteger", "noSolution", "solverFailure", "internalSolverError", "error",
            "userInterrupt", "resourceInterrupt", "licensingProblems"}
Conditions == Synonyms \cup Without
Operations == 1..3
Given == {{}, {"ratioGap=0"}, {"ratioGap=0", "seconds=60"}}   \* options for the solver
Kwargs == {{}, {"tee=False"}, {"tee=True", "keepfiles=False"}}  \* keywords for its solve()

Verdict(s, c) ==
  CASE s = "ok" /\ c = "optimal" -> "accept"
    [] s \in {"ok", "warning"} /\ c \in Synonyms -> "free"   \* not said, either is fine
    [] OTHER -> "reject"
Refused(allow) == IF allow THEN "raw" ELSE "error"
Outcomes(s, c, allow) ==
  CASE Verdict(s, c) = "accept" -> {"results"}
    [] Verdict(s, c) = "reject" -> {Refused(allow)}
    [] OTHER -> {"results", Refused(allow)}

Init == hist = <<>> /\ kept = <<>>
Some == {"optimal", "locallyOptimal", "feasible", "infeasible", "maxTimeLimit", "unknown"}
Attempt == \E s \in {"ok", "warning", "aborted"}, c \in Some, allow \in BOOLEAN, v \in Operations, g \in Given, w \in Kwargs :
  \E o \in Outcomes(s, c, allow) :
    /\ hist' = Append(hist, [s |-> s, c |-> c, allow |-> allow, v |-> v, options |-> g, kwargs |-> w,
                            outcomes |-> Outcomes(s, c, allow)])
    /\ kept' = IF o = "results" THEN Append(kept, v) ELSE kept
\* the short form: operation and options follow from the length
Brief == \E s \in Statuses, c \in Conditions, allow \in BOOLEAN :
  \E o \in Outcomes(s, c, allow) : LET v == (Len(hist) % 3) + 1 IN
    /\ hist' = Append(hist, [s |-> s, c |-> c, allow |-> allow, v |-> v, options |-> {}, kwargs |-> {},
                            outcomes |-> Outcomes(s, c, allow)])
    /\ kept' = IF o = "results" THEN Append(kept, v) ELSE kept
Next == Len(hist) < MaxLen /\ IF MaxLen <= 2 THEN Brief ELSE Attempt
Spec == Init /\ [][Next]_vars

\* nothing is returned as the results that no solver called optimal
Sound == Len(kept) <= Cardinality({i \in DOMAIN hist : hist[i].c \in Synonyms})
Total == \A i \in DOMAIN hist : hist[i].outcomes # {}
Lasting == [][SubSeq(kept', 1, Len(kept)) = kept]_vars
Show == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
