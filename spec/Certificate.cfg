INIT Init
NEXT Next
CONSTANT TOL = "1/100000"
CHECK_DEADLOCK FALSE
