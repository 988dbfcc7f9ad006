---- MODULE MCAssembly ----
EXTENDS Assembly, IOUtils
ToInt(s) == CHOOSE n \in 0..30 : ToString(n) = s
MCBuses == ToInt(IOEnv.VERIF_BUSES)
MCNodes == ToInt(IOEnv.VERIF_NODES)
MCLoose == ToInt(IOEnv.VERIF_LOOSE)
====
