SPECIFICATION Spec
CONSTANT Match <- LibmyMatch
CHECK_DEADLOCK FALSE
