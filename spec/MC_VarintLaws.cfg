SPECIFICATION Spec
CONSTANTS
  Octets = {0, 127, 128}
INVARIANTS Exact
CHECK_DEADLOCK FALSE
