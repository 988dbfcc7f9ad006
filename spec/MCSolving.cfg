SPECIFICATION Spec
CONSTANTS
  MaxLen <- MCMaxLen
INVARIANTS Wider Narrower Convex Sound Show
PROPERTIES Lasting
CHECK_DEADLOCK FALSE
