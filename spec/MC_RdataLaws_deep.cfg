SPECIFICATION Spec
CONSTANTS Deep = TRUE
INVARIANTS Kept Printable Typed Trip Denotes Marked Folding Generic
CHECK_DEADLOCK FALSE
