SPECIFICATION Spec
CONSTANT Match <- ArgMatch
CHECK_DEADLOCK FALSE
