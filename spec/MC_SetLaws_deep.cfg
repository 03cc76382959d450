SPECIFICATION Spec
CONSTANTS
  MaxItems = 5
  Wide = TRUE
INVARIANTS Total Sorts Unique Grouped Asked FoldKeeps
CHECK_DEADLOCK FALSE
