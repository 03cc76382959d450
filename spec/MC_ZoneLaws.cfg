SPECIFICATION Spec
CONSTANTS
  Most = 4
INVARIANTS OpensAtTheSoa EachOnceInOrder ErrorsAreSaid NotesAreNothing LongerAgrees ShortIsLong CountIsHanded
CHECK_DEADLOCK FALSE
