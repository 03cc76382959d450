SPECIFICATION Spec
CONSTANT Match <- MessageMatch
CHECK_DEADLOCK FALSE
