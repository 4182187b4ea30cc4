SPECIFICATION Spec
CONSTANTS N = 4  Adm = {0, 1, 4, 7}
INVARIANTS MatrixIsCurrent InverseIsExact SameAsFromScratch
CHECK_DEADLOCK FALSE
