INIT Init
NEXT Next
INVARIANT Conv
