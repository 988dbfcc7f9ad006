---- MODULE MCReplay ----
EXTENDS Replay, IOUtils, Load
MCConfigs == Load(IOEnv.VERIF_CONFIGS)
MCCases == Load(IOEnv.VERIF_CASES)
====
