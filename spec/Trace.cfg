INIT Init
NEXT Next
INVARIANT Conforms
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
