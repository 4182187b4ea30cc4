SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3, 4, 9}
  Years = 7
  TestSet <- Tests3
INVARIANTS Carries Agrees NeverEarly NoLossNoStop AllAlike Monotone OrderAndUnit Default
CHECK_DEADLOCK FALSE
