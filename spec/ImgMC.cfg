INIT Init
NEXT Next
INVARIANT InImage
INVARIANT Exact
INVARIANT RoundTrip
INVARIANT Layers
CHECK_DEADLOCK FALSE
