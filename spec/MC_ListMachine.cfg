SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Refines Marked
CHECK_DEADLOCK FALSE
