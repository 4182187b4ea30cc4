SPECIFICATION Spec
CONSTANTS N = 2 MaxP = 2 Loop = FALSE
INVARIANTS WeakDuality Tight
CHECK_DEADLOCK FALSE
