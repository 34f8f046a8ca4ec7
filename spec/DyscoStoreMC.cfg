SPECIFICATION Spec
CONSTANTS MaxRow = 4  Tokens = {1,2}  MaxOps = 5
INVARIANTS TypeOK Frame Durable ClosedClean KnownStable FirstPhase ReadOnly
CHECK_DEADLOCK FALSE
