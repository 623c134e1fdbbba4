CONSTANTS
  Variant = "none"
  XL = 0
  LG = 0
  Trees_ <- Small1
  MaxT = 3
  MaxCells = 4
  Top = 4
  Samples = 2
  Bits = 4
  Ties = 2
SPECIFICATION Spec
INVARIANTS Ascending InBounds FirstIsMin Shallow NeighboursDiffer NothingMissed Grows
PROPERTY Terminates
CHECK_DEADLOCK FALSE
