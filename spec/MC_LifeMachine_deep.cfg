SPECIFICATION Spec
CONSTANTS
  MaxRec = 4
  MaxSteps = 5
INVARIANTS OwnedOnce NoDangling NoLeak NoDoubleFree ClearedIsEmpty
VIEW View
CHECK_DEADLOCK FALSE
