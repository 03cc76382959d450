SPECIFICATION Spec
CONSTANT Match <- UtilMatch
CHECK_DEADLOCK FALSE
