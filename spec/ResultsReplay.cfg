INIT RInit
NEXT RNext
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
