---- MODULE MCTimeAxis ----
(* explores TimeAxis and prints every completed description with its axis *)
EXTENDS TimeAxis, Json, IOUtils
MCGaps == {-60, 0, 15, 30, 60, 90, 1440}
MCYearGaps == {0, 1, 2, 5}
MCMaxPoints == IF IOEnv.VERIF_TIER = "quick" THEN 4 ELSE 5
MCMaxPeriods == IF IOEnv.VERIF_TIER = "quick" THEN 3 ELSE 4
Show == (stage = "created") => PrintT("AXIS " \o ToJson([d |-> desc, axis |-> axis]))
====
