SPECIFICATION Spec
CONSTANT Match <- QueueMatch
CHECK_DEADLOCK FALSE
