SPECIFICATION TSpec
INVARIANT Report
INVARIANT TypeOK
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
