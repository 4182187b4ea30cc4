SPECIFICATION Spec
CONSTANTS NA = 2  NU = 2  Loads = {0, 1, 3, 5}  Caps = {0, 1}  MaxFlow = 1  Levels = 2  Hours = 1
INVARIANTS OwnershipCancels CapacityInBounds PlannedIsOut HelpIsReal AllShortIsHopeless LowerLevelsAreSafe CountsAgree PeaksAreHours OnePeak ClassesExclude LevelsInOrder
CHECK_DEADLOCK FALSE
