SPECIFICATION ASpec
CONSTANTS Slots = 4
 MaxTime = 3
 Kinds = {1, 2}
INVARIANTS NoCycle HoldsAbstract InOrder FreeIsFree
PROPERTY TakesNext
CHECK_DEADLOCK FALSE
