SPECIFICATION Spec
CONSTANT Match <- ZoneMatch
CHECK_DEADLOCK FALSE
