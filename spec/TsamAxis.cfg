INIT Init
NEXT Next
CONSTANTS
  MaxOrder <- MCMaxOrder
  MultiOrder = 2
  MaxPeriods = 2
  MaxSteps = 2
  Lengths = {1, 3}
INVARIANTS InvTime InvWeights InvPartition InvInside InvUsable Show
CHECK_DEADLOCK FALSE
