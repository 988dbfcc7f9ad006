INIT Init
NEXT Next
CONSTANTS
  Steps = 3
  Kinds <- MCKinds
  MaxGiven <- MCMaxGiven
INVARIANTS Decided Sober Complete
CHECK_DEADLOCK FALSE
