SPECIFICATION Fair
CONSTANTS
  Names = {"a", "b", "c"}
  MaxAdds = 4
INVARIANTS NothingLost NotTwice
PROPERTIES AllHanded
CHECK_DEADLOCK FALSE
