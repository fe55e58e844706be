CONSTANT Pure = FALSE
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
