INIT Init
NEXT Next
INVARIANT Test
