INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS N = 6
D = 6
