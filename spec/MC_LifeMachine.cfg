SPECIFICATION Spec
CONSTANTS
  MaxRec = 3
  MaxSteps = 4
INVARIANTS OwnedOnce NoDangling NoLeak NoDoubleFree ClearedIsEmpty
VIEW View
CHECK_DEADLOCK FALSE
