INIT Init
NEXT Next
INVARIANTS NoPanic Written RoundTrip Twin TwinErr Agree Cuts
CHECK_DEADLOCK FALSE
