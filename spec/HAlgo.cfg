CONSTANTS
  Variant = "none"
  XL = 0
  LG = 0
  MaxNodes = 5
  Top = 3
  Samples = 2
  Bits = 2
SPECIFICATION Spec
INVARIANTS Nodewise LeavesStay Tiles Optimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
