INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Binding
CHECK_DEADLOCK FALSE
