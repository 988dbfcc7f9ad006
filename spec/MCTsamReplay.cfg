INIT RInit
NEXT RNext
CONSTANTS
  Configs <- MCConfigs
  Cases <- MCCases
  TOL = "1/100000"
  OTOL = "1/100000"
CHECK_DEADLOCK FALSE
