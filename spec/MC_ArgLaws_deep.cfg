SPECIFICATION Spec
CONSTANTS
  Most = 4
INVARIANTS TheTablesAreGood GroupsAreLetters NamesAreLetters AttachedIsNext FilesAreWords EnvironmentIsWords AfterIsAfter LiteralAfterMark TakenIsComplete RefusedOnceOnly StricterRefusesMore
CHECK_DEADLOCK FALSE
