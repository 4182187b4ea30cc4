SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxVal = 2 MaxContracts = 1
INVARIANTS MaximumIsMaximum OutageWeeks SeasonsAgree ContractsCancel ContractsByHand SharesAddUp InstalledAddsUp
CHECK_DEADLOCK FALSE
