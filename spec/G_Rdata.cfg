SPECIFICATION GSpec
CONSTANTS Deep = FALSE
CHECK_DEADLOCK FALSE
