SPECIFICATION Spec
CONSTANTS Confs <- ConfsQuick
 Horizon = 6
 Interval = 2
 Crashes = 2
INVARIANTS HoursInOrder RightSeason RightOutage TotalsAreSums OneReport NoEarlyStop RightResult SnapshotsOnTime
PROPERTIES YearComplete Finishes TimeForward
CHECK_DEADLOCK FALSE
