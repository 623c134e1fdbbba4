CONSTANTS
  MaxFactor = 7
  Step = 64
SPECIFICATION Spec
INVARIANTS Shape Normal Increasing Multiplicative Squares PowersOfTwo ProductOf XLProduct Convex Superadditive
CHECK_DEADLOCK FALSE
