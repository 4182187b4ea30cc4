SPECIFICATION Spec
CONSTANTS MaxUnits = 2 Den = 8
INVARIANTS Total Nonneg Decreasing AnyOrder Mean
CHECK_DEADLOCK FALSE
