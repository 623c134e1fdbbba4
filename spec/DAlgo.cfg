CONSTANTS
  Variant = "none"
  XL = 0
  LG = 0
  MaxNodes = 4
  MaxT = 3
  MaxCells = 4
  Top = 3
  Samples = 2
  Bits = 2
SPECIFICATION Spec
INVARIANTS Blockwise Tiles Optimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
