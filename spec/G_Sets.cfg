SPECIFICATION GSpec
CONSTANTS
  MaxItems = 4
  Wide = FALSE
CHECK_DEADLOCK FALSE
