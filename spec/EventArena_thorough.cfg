SPECIFICATION ASpec
CONSTANTS Slots = 5
 MaxTime = 3
 Kinds = {1, 2}
INVARIANTS NoCycle HoldsAbstract InOrder FreeIsFree
PROPERTY TakesNext
CHECK_DEADLOCK FALSE
