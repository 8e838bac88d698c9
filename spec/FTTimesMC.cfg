SPECIFICATION Spec
CONSTANTS LAST = 1908
 REACH = 3
INVARIANTS Counted Named Kept Later Moved
CHECK_DEADLOCK FALSE
