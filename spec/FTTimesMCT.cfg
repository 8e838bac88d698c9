SPECIFICATION Spec
CONSTANTS LAST = 2110
 REACH = 12
INVARIANTS Counted Named Kept Later Moved
CHECK_DEADLOCK FALSE
