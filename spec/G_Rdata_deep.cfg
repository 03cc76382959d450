SPECIFICATION GSpec
CONSTANTS Deep = TRUE
CHECK_DEADLOCK FALSE
