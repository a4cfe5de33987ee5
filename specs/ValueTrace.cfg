INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS NoPanic Capturing Reading RoundTrip Described Written Reread Equality
