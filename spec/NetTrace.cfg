SPECIFICATION Spec
INVARIANT Ok
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
