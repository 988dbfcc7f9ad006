INIT Init
NEXT Next
CONSTANTS
  Gaps <- MCGaps
  YearGaps <- MCYearGaps
  MaxPoints <- MCMaxPoints
  MaxPeriods <- MCMaxPeriods
INVARIANTS InvPoints InvGiven InvOrdered InvLength InvSameLast InvPartition InvYears InvUsable Show
CHECK_DEADLOCK FALSE
