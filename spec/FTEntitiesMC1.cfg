SPECIFICATION Spec
CONSTANTS ROWS = 2
 DEPTH = 1
 FULL = TRUE
INVARIANTS Formed Lossless LastOk Idempotent SelfConcat SaveIdentity
CHECK_DEADLOCK FALSE
