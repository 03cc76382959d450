SPECIFICATION TSpec
CONSTANTS Deep = TRUE
INVARIANTS Carried Settles Blanks
CHECK_DEADLOCK FALSE
