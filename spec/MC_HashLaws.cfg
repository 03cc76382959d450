SPECIFICATION Spec
CONSTANTS
  Halves = {0, 1, 32768, 65535}
INVARIANTS Lossless Arithmetic
CHECK_DEADLOCK FALSE
