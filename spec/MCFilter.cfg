SPECIFICATION Spec
CONSTANTS N = 4
 Vals <- MCVals
INVARIANTS AgreesWithMeaning Idempotent ErrorOnlyOutside
CHECK_DEADLOCK FALSE
