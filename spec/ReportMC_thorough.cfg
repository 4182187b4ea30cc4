SPECIFICATION Spec
CONSTANTS MaxNum = 30  MaxDen = 16  MaxYears = 4  Values = {0, 1, 2, 7, 30}
INVARIANTS RatiosAreRounded DeviationsAreRounded EqualYearsDoNotDeviate DistributionsAddUp DistributionKeepsTheMean
CHECK_DEADLOCK FALSE
