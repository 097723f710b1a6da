SPECIFICATION TraceSpec
CONSTRAINT Observation
INVARIANT NotExplained
CHECK_DEADLOCK FALSE
ALIAS Where
