SPECIFICATION Spec
CONSTANTS Deep = FALSE
INVARIANTS Kept Printable Typed Trip Denotes Marked Folding Generic
CHECK_DEADLOCK FALSE
