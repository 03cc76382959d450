SPECIFICATION Spec
CONSTANTS
  Second = 12
  Rates = {1, 2, 3, 4, 5, 6, 7, 9, 12}
  MaxLate = 3
  MaxGap = 14
  MaxSec = 5
INVARIANTS ShortWait NotFaster TickAhead
PROPERTIES Unheld
CHECK_DEADLOCK FALSE
