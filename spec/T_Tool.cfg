SPECIFICATION Spec
CONSTANT Match <- ToolMatch
CHECK_DEADLOCK FALSE
