SPECIFICATION Spec
CONSTANT Match <- LifeMatch
CHECK_DEADLOCK FALSE
