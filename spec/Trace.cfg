CONSTANTS
  XL <- TXL
  LG <- TLG
  Props <- TProps
SPECIFICATION Spec
VIEW Position
INVARIANT Machine
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
