SPECIFICATION Spec
CONSTANTS N = 3  Adm = {0, 1, 3, 4}
INVARIANTS MatrixIsCurrent InverseIsExact SameAsFromScratch
CHECK_DEADLOCK FALSE
