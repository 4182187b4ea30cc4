SPECIFICATION Spec
CONSTANTS NA = 3  NU = 3  Loads = {0, 3}  Caps = {0, 1}  MaxFlow = 1  Levels = 2  Hours = 1
INVARIANTS OwnershipCancels CapacityInBounds PlannedIsOut HelpIsReal AllShortIsHopeless LowerLevelsAreSafe CountsAgree PeaksAreHours OnePeak ClassesExclude LevelsInOrder
CHECK_DEADLOCK FALSE
