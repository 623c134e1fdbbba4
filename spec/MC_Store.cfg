CONSTANT Max = 6
SPECIFICATION Spec
INVARIANTS Inverse LastFastest
CHECK_DEADLOCK FALSE
