INIT Init
NEXT Next
INVARIANT Typed
INVARIANT Replayable
CHECK_DEADLOCK FALSE
