SPECIFICATION Spec
CONSTANTS
  R = 3
  Items <- TinyItems
  Cuts = {0, 1, 9, 15, 17}
INVARIANTS Inside Accounts Faithful Tailless Agrees Refines Distinct Partition FirstMet Questions1
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
