INIT EInit
NEXT ENext
CONSTANTS
  Configs <- MCConfigs
  TOL = "0"
INVARIANTS TypeOK InvBus InvDirection InvOff InvMinUp InvMinDown InvStarts InvStore InvBalanced InvCapacity InvCost
CHECK_DEADLOCK FALSE
