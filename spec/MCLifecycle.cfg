SPECIFICATION Spec
CONSTANTS
  MaxLen <- MCMaxLen
  MaxModels <- MCMaxModels
  WithFiles <- MCWithFiles
INVARIANTS Unordered Faithful Show
PROPERTIES PureBuild Lasting Separate
CHECK_DEADLOCK FALSE
