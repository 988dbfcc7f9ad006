INIT RInit
NEXT RNext
CONSTANTS MaxLen = 0
CHECK_DEADLOCK FALSE
