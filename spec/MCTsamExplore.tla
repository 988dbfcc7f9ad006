---- MODULE MCTsamExplore ----
EXTENDS TsamExplore, IOUtils, Load
MCConfigs == Load(IOEnv.VERIF_CONFIGS)
====
