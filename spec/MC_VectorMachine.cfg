SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxA = 3
INVARIANTS Room Refines
PROPERTIES Reservation Kept
CHECK_DEADLOCK FALSE
