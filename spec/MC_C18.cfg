INIT Init
NEXT Next
INVARIANTS TypeOK Same_
CHECK_DEADLOCK FALSE
