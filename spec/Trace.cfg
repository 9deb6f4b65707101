SPECIFICATION TSpec
CONSTRAINT Note
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
