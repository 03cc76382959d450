SPECIFICATION Spec
CONSTANTS
  Second = 30
  Rates = {1, 2, 3, 4, 7, 8, 11, 13, 16, 29, 30}
  MaxLate = 6
  MaxGap = 45
  MaxSec = 4
INVARIANTS ShortWait NotFaster TickAhead
PROPERTIES Unheld
CHECK_DEADLOCK FALSE
