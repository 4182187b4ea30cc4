SPECIFICATION MSpec
CONSTANTS Slots = 25
 MaxTime = 9
 Kinds = {1, 2, 3, 4}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
