---------------------------- MODULE BigSelfTest ----------------------------
(***************************************************************************)
(* Evaluates every operator of Big on a grid of operands and prints the    *)
(* results.  The setup runs it twice, with the plain TLA+ definitions and  *)
(* with the java.math.BigInteger implementation, and compares the output.  *)
(***************************************************************************)
EXTENDS Big, Bytes, TLC
VARIABLE i
Ns == << << >>, <<1>>, <<2>>, <<255>>, <<0,1>>, <<255,255>>, <<0,0,1>>, <<17,200,3>>,
         <<1,2,3,4,5,6,7>>, <<255,255,255,255,255,255,255,255,1>>, <<0,0,0,0,128>> >>
Bin(a, b) == << NCmp(a,b), NAdd(a,b), NMul(a,b), IF NCmp(a,b) # -1 THEN NSub(a,b) ELSE << >>,
                IF b # << >> THEN NDivMod(a,b) ELSE << >>, IF b # << >> THEN NPowMod(a, b, <<251,3,77>>) ELSE << >> >>
Zb(x, y) == << ZCmp(x,y), ZAdd(x,y), ZSub(x,y), ZMul(x,y),
               IF ZIsZero(y) THEN << >> ELSE <<ZTruncDiv(x,y), ZFloorDiv(x,y), ZMod(x,y)>> >>
Un(a) == << NNorm(a \o <<0,0>>), NBitLen(a), NPow(a, 3), NShl(a, 13), NShr(a, 5), NInvMod(a, <<101>>), NHalf(a), NOdd(a) >>
Sg(s, a) == ZMk(s, a)
Xs == [k \in 0..16 |-> XorBytes([j \in 1..16 |-> ((16 * k) % 256) + j - 1], [j \in 1..16 |-> (37 * j + 11 * k) % 256]) \o << >>]
Init == i = 0
Next == /\ i < Len(Ns)
        /\ i' = i + 1
        /\ PrintT(<<"S", Xs, Un(Ns[i']), [j \in 1..Len(Ns) |-> Bin(Ns[i'], Ns[j])],
                   [j \in 1..Len(Ns) |-> [s \in 0..3 |-> Zb(Sg(s % 2, Ns[i']), Sg(s \div 2, Ns[j]))]]>>)
Conv == \A k \in {0, 1, 255, 256, 65535, 65536, 2147483647} : NToInt(NFromInt(k)) = k /\ ZToInt(ZFromInt(-k)) = -k
=============================================================================
