CONSTANTS
  Variant = "none"
  N = 5
SPECIFICATION Spec
INVARIANTS NeverStuck Complete Right
PROPERTY Terminates
CHECK_DEADLOCK FALSE
