SPECIFICATION Spec
CONSTANTS
  Systems <- TwoSystems
  Years = 3
  YearLength = 4
  MaxRuns = 3
INVARIANTS Repeatable Complete PutBack SnapshotsAreOfWholeHours
CHECK_DEADLOCK FALSE
