CONSTANTS
  Threads = 3
  Calls = 2
  Steps = 2
  Static = FALSE
SPECIFICATION Spec
INVARIANTS AsAlone NoRace
PROPERTY GivenKept
CHECK_DEADLOCK FALSE
