INIT RInit
NEXT RNext
CONSTANTS
  Gaps = {}
  YearGaps = {}
  MaxPoints = 0
  MaxPeriods = 0
CHECK_DEADLOCK FALSE
