CONSTANTS
  XL = 0
  LG = 0
  Top = 2
SPECIFICATION Spec
INVARIANTS Trichotomy Transitive Compatible MaxIsGreatest ThirdOnlyAtEnds
CHECK_DEADLOCK FALSE
