SPECIFICATION Spec
CONSTANTS ROWS = 2
 DEPTH = 2
 FULL = FALSE
INVARIANTS Formed Lossless LastOk Idempotent SelfConcat SaveIdentity
CHECK_DEADLOCK FALSE
