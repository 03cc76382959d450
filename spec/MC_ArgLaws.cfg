SPECIFICATION Spec
CONSTANTS
  Most = 3
INVARIANTS TheTablesAreGood GroupsAreLetters NamesAreLetters AttachedIsNext FilesAreWords EnvironmentIsWords AfterIsAfter LiteralAfterMark TakenIsComplete RefusedOnceOnly StricterRefusesMore
CHECK_DEADLOCK FALSE
