SPECIFICATION Spec
CONSTANTS
  Groups = {0, 1, 65535}
  Octets = {0, 9, 10, 99, 100, 255}
INVARIANTS Six Four
CHECK_DEADLOCK FALSE
