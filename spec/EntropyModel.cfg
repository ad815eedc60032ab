INIT Init
NEXT Next
INVARIANT NoReuse
CHECK_DEADLOCK FALSE
