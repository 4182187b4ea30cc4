SPECIFICATION Spec
CONSTANTS N = 3 MaxP = 1 Loop = TRUE
INVARIANTS WeakDuality Tight
CHECK_DEADLOCK FALSE
