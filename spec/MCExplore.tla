---- MODULE MCExplore ----
EXTENDS Explore, IOUtils, Load
MCConfigs == Load(IOEnv.VERIF_CONFIGS)
====
