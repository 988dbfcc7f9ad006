SPECIFICATION Spec
CONSTANTS MaxLen <- MCMaxLen
INVARIANTS Sound Total Show
PROPERTIES Lasting
CHECK_DEADLOCK FALSE
