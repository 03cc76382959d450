SPECIFICATION GSpec
CONSTANTS
  R = 2
  Items <- TinyItems
  Cuts = {0}
CHECK_DEADLOCK FALSE
