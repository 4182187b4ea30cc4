SPECIFICATION Spec
CONSTANTS Seeds = {0, 1, 2, 3, 4096, 65536, 345237, 1073741824, 2147483646, 2147483647}  Comps = 4  MaxDraws = 6
INVARIANTS OwnStream InRange Alive SameParity SeparateStreams ByTheMultiplier UnitsDivide LinesDivide
CHECK_DEADLOCK FALSE
