INIT XInit
NEXT XNext
CONSTANTS
  Configs <- MCConfigs
  TOL = "0"
INVARIANTS InvUnfoldedCost InvUnfoldedEnergy InvNetCharge InvBalanced
CHECK_DEADLOCK FALSE
