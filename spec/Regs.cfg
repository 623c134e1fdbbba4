SPECIFICATION Spec
INVARIANTS TypeOK SameEitherWay Linear
PROPERTY OneTarget
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
