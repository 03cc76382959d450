SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 3, 97, 192}
  N = 5
  MaxName <- SmallMaxName
  MaxLabel <- SmallMaxLabel
INVARIANTS Bounded Sound Complete Functional Valid PlainAgrees SkipBounded
PROPERTIES InBounds Progress Terminates
CHECK_DEADLOCK FALSE
