INIT Init
NEXT Next
INVARIANTS LawsHold Both Named
CHECK_DEADLOCK FALSE
