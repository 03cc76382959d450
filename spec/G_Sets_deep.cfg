SPECIFICATION GSpec
CONSTANTS
  MaxItems = 5
  Wide = TRUE
CHECK_DEADLOCK FALSE
