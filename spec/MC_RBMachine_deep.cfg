SPECIFICATION Spec
CONSTANTS
  N = 10
INVARIANTS Refines Linked RedRule Balanced
CHECK_DEADLOCK FALSE
