SPECIFICATION Spec
CONSTANTS MaxNum = 8  MaxDen = 6  MaxYears = 3  Values = {0, 1, 7, 30}
INVARIANTS RatiosAreRounded DeviationsAreRounded EqualYearsDoNotDeviate DistributionsAddUp DistributionKeepsTheMean
CHECK_DEADLOCK FALSE
