SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxA = 5
INVARIANTS Room Refines
PROPERTIES Reservation Kept
CHECK_DEADLOCK FALSE
