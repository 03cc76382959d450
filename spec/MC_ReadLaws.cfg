SPECIFICATION TSpec
CONSTANTS Deep = FALSE
INVARIANTS Carried Settles Blanks
CHECK_DEADLOCK FALSE
