INIT Init
NEXT Next
INVARIANTS NoPanic Capturing RoundTrip Twin
CHECK_DEADLOCK FALSE
