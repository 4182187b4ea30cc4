SPECIFICATION Spec
CONSTANTS
  Systems <- MoreSystems
  Years = 3
  YearLength = 4
  MaxRuns = 2
INVARIANTS Repeatable Complete PutBack SnapshotsAreOfWholeHours
CHECK_DEADLOCK FALSE
