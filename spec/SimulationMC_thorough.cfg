SPECIFICATION Spec
CONSTANTS Confs <- ConfsThorough
 Horizon = 8
 Interval = 2
 Crashes = 3
INVARIANTS HoursInOrder RightSeason RightOutage TotalsAreSums OneReport NoEarlyStop RightResult SnapshotsOnTime
PROPERTIES YearComplete Finishes TimeForward
CHECK_DEADLOCK FALSE
