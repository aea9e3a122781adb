INIT Init
NEXT Next
INVARIANT Vectors
