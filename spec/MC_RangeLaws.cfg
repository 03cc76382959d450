SPECIFICATION Spec
CONSTANTS
  Groups = {}
  Octets = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 85, 127, 128, 129, 170, 191, 192, 223, 224, 239, 240, 247, 248, 251, 252, 253, 254, 255}
INVARIANTS Range2
CHECK_DEADLOCK FALSE
