SPECIFICATION Spec
CONSTANTS
  Steps = {1, 2, 3, 4}
  Rows <- R4
  Workers = {1, 2, 3}
  Saving = TRUE
  CanFail = {}
INVARIANTS WholeFiles FinishedSteps ErrorIsError Complete NoneLost InRange
PROPERTIES NeverBack EndStays Ends
CHECK_DEADLOCK FALSE
