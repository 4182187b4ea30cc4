SPECIFICATION Spec
CONSTANTS NA = 2  NU = 2  Loads = {1, 4}  Caps = {1}  MaxFlow = 1  Levels = 1  Hours = 2
INVARIANTS OwnershipCancels CapacityInBounds PlannedIsOut HelpIsReal AllShortIsHopeless LowerLevelsAreSafe CountsAgree PeaksAreHours OnePeak ClassesExclude LevelsInOrder
CHECK_DEADLOCK FALSE
