CONSTANTS
  N = 3
  K = 3
  Alias = FALSE
SPECIFICATION Spec
INVARIANTS Relative Finite TwiceIsOnce AtMostOne
CHECK_DEADLOCK FALSE
