SPECIFICATION Spec
CONSTANTS
  Groups = {0, 1, 2571, 65535}
  Octets = {0, 1, 9, 10, 11, 99, 100, 101, 199, 200, 249, 250, 255}
INVARIANTS Six Four
CHECK_DEADLOCK FALSE
