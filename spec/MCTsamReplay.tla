---- MODULE MCTsamReplay ----
EXTENDS TsamReplay, IOUtils, Load
MCConfigs == Load(IOEnv.VERIF_CONFIGS)
MCCases == Load(IOEnv.VERIF_CASES)
====
