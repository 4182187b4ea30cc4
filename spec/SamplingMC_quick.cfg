SPECIFICATION Spec
CONSTANTS Seeds = {0, 1, 345237, 2147483647}  Comps = 3  MaxDraws = 3
INVARIANTS OwnStream InRange Alive SameParity SeparateStreams ByTheMultiplier UnitsDivide LinesDivide
CHECK_DEADLOCK FALSE
