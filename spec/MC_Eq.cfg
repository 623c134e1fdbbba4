CONSTANTS
  XL <- TX
  LG <- TX
  MaxNodes = 5
  MaxT = 4
  MaxBlocks = 18
SPECIFICATION Spec
INVARIANTS OneSidedIsEquality ByPosition
CHECK_DEADLOCK FALSE
