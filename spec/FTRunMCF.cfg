SPECIFICATION Spec
CONSTANTS
  Steps = {1, 2, 3}
  Rows <- R3
  Workers = {1, 2}
  Saving = TRUE
  CanFail = {2}
INVARIANTS WholeFiles FinishedSteps ErrorIsError Complete NoneLost InRange
PROPERTIES NeverBack EndStays Ends
CHECK_DEADLOCK FALSE
