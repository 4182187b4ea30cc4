SPECIFICATION Spec
CONSTANTS MaxLen = 7 MaxVal = 2 MaxContracts = 2
INVARIANTS MaximumIsMaximum OutageWeeks SeasonsAgree ContractsCancel ContractsByHand SharesAddUp InstalledAddsUp
CHECK_DEADLOCK FALSE
