CONSTANTS
  Variant = "none"
  XL = 0
  LG = 0
  MaxNodes = 6
SPECIFICATION Spec
INVARIANTS Exactly OneTermPerCell
PROPERTY Terminates
CHECK_DEADLOCK FALSE
