SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 5}
  Years = 6
  TestSet <- Tests3
INVARIANTS Carries Agrees NeverEarly NoLossNoStop AllAlike Monotone OrderAndUnit Default
CHECK_DEADLOCK FALSE
