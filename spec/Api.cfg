SPECIFICATION Spec
INVARIANTS Machine Grounded
PROPERTIES AggsAreConstant TakesAreConstant DropsOnly CopiesOnly ValuesArePrivate QualitiesArePrivate OnlyComputeReplaces PartersKeepTheirs PartsAreConstant ReadsReadOnly
CONSTRAINT Small
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
