SPECIFICATION Spec
CONSTANT Match <- NameMatch
CHECK_DEADLOCK FALSE
