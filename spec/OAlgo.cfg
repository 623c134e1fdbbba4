CONSTANTS
  Variant = "none"
  XL = 0
  LG = 0
  MaxT = 5
  Top = 3
  Samples = 6
  Bits = 2
SPECIFICATION Spec
INVARIANTS SuffixesBest Cuts Tiles Optimal ValueIsWorth
PROPERTY Terminates
CHECK_DEADLOCK FALSE
