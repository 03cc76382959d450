SPECIFICATION Spec
CONSTANTS
  N = 7
INVARIANTS Refines Linked RedRule Balanced
CHECK_DEADLOCK FALSE
