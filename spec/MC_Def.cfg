CONSTANTS
  XL <- TXL
  LG <- TLG
  MaxNodes = 4
  MaxT = 3
  MaxV = 2
  Top = 6
  Samples = 2
SPECIFICATION Spec
INVARIANTS PrefixIsDefinition NotNegative NullForOneCell WholeIsGreatest WholeIsCoarsest HomogeneousHasNoLoss ReverseSame Renumber TwiceTheSeries Factor
CHECK_DEADLOCK FALSE
