SPECIFICATION Spec
CONSTANT Match <- TextMatch
CHECK_DEADLOCK FALSE
