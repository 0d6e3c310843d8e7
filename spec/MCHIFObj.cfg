SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Keys <- MCKeys
  SizeOf <- MCSizeOf
  NeedOf <- MCNeedOf
  Widths = {1, 3}
  Filters <- MCFilters
  MaxOps = 4
INVARIANTS TypeOK EmptyHasNothing ScratchSuffices
PROPERTIES AnswersAreCurrent ObjectsIndependent FiltersSided
CHECK_DEADLOCK FALSE
