SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Times = {0, 1}
  Ants = {0, 1}
INVARIANTS RegularIsPeriodic OnlyOnePeriod BlocksPartition Outcomes
CHECK_DEADLOCK FALSE
