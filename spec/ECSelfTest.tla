----------------------------- MODULE ECSelfTest -----------------------------
(* The named curves, and P-256 scalar multiplication against a direct evaluation. *)
EXTENDS EC, TLC
VARIABLE x
Init == x = 0
Next == x' = x /\ FALSE
Ks == {<<1>>, <<2>>, <<3>>, <<17>>, NSub(P256n, NOne), NSub(P256n, <<2>>), NDiv(P256n, <<2>>), P256n, NAdd(P256n, <<5>>)}
Small == [p |-> <<97>>, a |-> <<2>>, b |-> <<3>>]
SmallPts == {<<NFromInt(i), NFromInt(j)>> : i \in 0..96, j \in 0..96}
Ok == /\ OnCurve(P256, P256G) /\ OnCurve(K256, K256G)
      /\ ECMul(P256, P256n, P256G) = Inf /\ ECMul(K256, K256n, K256G) = Inf
      /\ \A k \in Ks : ECMul(P256, k, P256G) = ECMulFrom(P256, k, P256G, Inf) /\ ECMul(K256, k, K256G) = ECMulFrom(K256, k, K256G, Inf)
      /\ ECMul(P256, NSub(P256n, NOne), P256G) = ECNeg(P256, P256G)
      /\ \A P \in {Q \in SmallPts : OnCurve(Small, Q)} : \A k \in 0..12 : ECMul(Small, NFromInt(k), P) = ECMulFrom(Small, NFromInt(k), P, Inf)
      \* 2G of P-256, a published vector
      /\ ECMul(P256, <<2>>, P256G)[1] = Rev(<<124,242,123,24,141,3,79,126,138,82,56,3,4,181,26,195,192,137,105,226,119,242,27,53,166,11,72,252,71,102,153,120>>)
Test == Ok /\ PrintT("EC OK")
=============================================================================
