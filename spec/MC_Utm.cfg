CONSTANTS
  Variant = "none"
  MaxSize = 24
  WriteSize = 3
  Values = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Bijection ReadsLastWrite AsProved
CHECK_DEADLOCK FALSE
