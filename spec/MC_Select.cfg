CONSTANTS
  Variant = "none"
  N = 4
  K = 4
SPECIFICATION Spec
INVARIANTS FoldIsDefinition AreaInUnit
PROPERTIES Done
CHECK_DEADLOCK FALSE
