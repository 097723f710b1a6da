SPECIFICATION TraceSpec
INVARIANT Observation
INVARIANT DesignInv
CHECK_DEADLOCK TRUE
ALIAS Where
