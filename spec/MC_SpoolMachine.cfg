SPECIFICATION Fair
CONSTANTS
  Names = {"a", "b"}
  MaxAdds = 3
INVARIANTS NothingLost NotTwice
PROPERTIES AllHanded
CHECK_DEADLOCK FALSE
