CONSTANTS
  Variant = "none"
  XL <- TXL
  LG <- TLG
  MaxNodes = 4
  MaxT = 3
  MaxV = 2
  Top = 5
  Samples = 1
SPECIFICATION Spec
INVARIANTS SumsAreSums Defined
PROPERTY Terminates
CHECK_DEADLOCK FALSE
