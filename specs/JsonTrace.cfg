INIT Init
NEXT Next
INVARIANT Sources
INVARIANT Written
INVARIANT Meaning
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
