CONSTANTS
  XL = 0
  LG = 0
  MaxNodes = 4
  MaxT = 3
  MaxCells = 4
  Top = 3
  Samples = 3
  Bits = 3
SPECIFICATION Spec
INVARIANTS AllAreAll RecursionIsBest WideIsNarrow HugeIsNarrow CoversIsPartition Monotone Extremes ReverseSame
CHECK_DEADLOCK FALSE
