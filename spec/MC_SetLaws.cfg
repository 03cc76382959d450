SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
  Wide = FALSE
INVARIANTS Total Sorts Unique Grouped Asked FoldKeeps
CHECK_DEADLOCK FALSE
