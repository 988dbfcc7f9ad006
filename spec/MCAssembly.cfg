SPECIFICATION Spec
CONSTANTS
  Buses <- MCBuses
  Nodes <- MCNodes
  Loose <- MCLoose
INVARIANTS Rooted Together Show
PROPERTIES Growing
CHECK_DEADLOCK FALSE
