INIT Init
NEXT Next
INVARIANTS TypeOK HistoryFree WalkFree StormFree
CHECK_DEADLOCK FALSE
