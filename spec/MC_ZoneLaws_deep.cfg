SPECIFICATION Spec
CONSTANTS
  Most = 5
INVARIANTS OpensAtTheSoa EachOnceInOrder ErrorsAreSaid NotesAreNothing LongerAgrees ShortIsLong CountIsHanded
CHECK_DEADLOCK FALSE
