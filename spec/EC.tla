--------------------------------- MODULE EC ---------------------------------
(***************************************************************************)
(* Prime fields and short Weierstrass curves y^2 = x^3 + a x + b, b # 0,   *)
(* over Big.tla.  A curve is [p, a, b] (naturals); a point is <<x, y>> or  *)
(* Inf.  Group orders and base points of the named curves are below.       *)
(***************************************************************************)
EXTENDS Big, Bytes

FAdd(x, y, p) == NMod(NAdd(x, y), p)
FNeg(x, p) == IF x = << >> THEN << >> ELSE NSub(p, x)
FSub(x, y, p) == NMod(NAdd(x, FNeg(y, p)), p)
FMul(x, y, p) == NMod(NMul(x, y), p)
FDiv(x, y, p) == FMul(x, NInvMod(y, p), p)
FSq(x, p) == FMul(x, x, p)
IsSquare(x, p) == x = << >> \/ NPowMod(x, NHalf(NSub(p, NOne)), p) = NOne       \* Euler
Digit(i) == NFromInt(i)

Inf == << >>
OnCurve(c, P) == P = Inf \/ FSq(P[2], c.p) = FAdd(FMul(FAdd(FSq(P[1], c.p), c.a, c.p), P[1], c.p), c.b, c.p)
ECNeg(c, P) == IF P = Inf THEN Inf ELSE <<P[1], FNeg(P[2], c.p)>>
Chord(c, P, Q, l) ==        \* third intersection of the line of slope l, reflected
    LET x == FSub(FSq(l, c.p), FAdd(P[1], Q[1], c.p), c.p)
    IN <<x, FSub(FMul(l, FSub(P[1], x, c.p), c.p), P[2], c.p)>>
ECAdd(c, P, Q) ==
    IF P = Inf THEN Q ELSE IF Q = Inf THEN P
    ELSE IF P[1] = Q[1] THEN
         IF P[2] # Q[2] \/ P[2] = << >> THEN Inf
         ELSE Chord(c, P, Q, FDiv(FAdd(FMul(<<3>>, FSq(P[1], c.p), c.p), c.a, c.p), FAdd(P[2], P[2], c.p), c.p))
    ELSE Chord(c, P, Q, FDiv(FSub(Q[2], P[2], c.p), FSub(Q[1], P[1], c.p), c.p))
ECSub(c, P, Q) == ECAdd(c, P, ECNeg(c, Q))

\* k-fold sum of P for a natural k; java/EC.java evaluates the same function
RECURSIVE ECMulFrom(_, _, _, _)
ECMulFrom(c, k, P, acc) ==
    IF k = << >> THEN acc
    ELSE ECMulFrom(c, NHalf(k), ECAdd(c, P, P), IF NOdd(k) THEN ECAdd(c, acc, P) ELSE acc)
ECMul(c, k, P) == ECMulFrom(c, k, P, Inf)
ECMulZ(c, z, P) == IF ZNeg1(z) THEN ECMul(c, ZMag(z), ECNeg(c, P)) ELSE ECMul(c, ZMag(z), P)

\* total order of points: by x, then y, infinity being (0, 0)
CX(P) == IF P = Inf THEN << >> ELSE P[1]
CY(P) == IF P = Inf THEN << >> ELSE P[2]
ECCmp(P, Q) == IF CX(P) = CX(Q) THEN NCmp(CY(P), CY(Q)) ELSE NCmp(CX(P), CX(Q))

\* big-endian bytes of fixed width
BE(n, w) == IF Len(n) > w THEN << >> ELSE Zeros(w - Len(n)) \o Rev(n)
FromBE(bytes) == NNorm(Rev(bytes))

-----------------------------------------------------------------------------
\* the standard encodings of points (field of w bytes, p = 3 mod 4)
PrefixOf(P) == IF NOdd(P[2]) THEN 3 ELSE 2
Compressed(P, w) == IF P = Inf THEN <<0>> ELSE <<PrefixOf(P)>> \o BE(P[1], w)
Uncompressed(P, w) == IF P = Inf THEN <<0>> ELSE <<4>> \o BE(P[1], w) \o BE(P[2], w)
NoPoint == <<"none">>
RHS(c, x) == FAdd(FMul(FAdd(FSq(x, c.p), c.a, c.p), x, c.p), c.b, c.p)
WithParity(y, odd, p) == IF NOdd(y) = odd THEN y ELSE FNeg(y, p)
LiftX(c, x, odd) ==      \* the point with this x whose y has the given parity
    IF ~NLt(x, c.p) THEN NoPoint
    ELSE LET y2 == RHS(c, x)
             y == NPowMod(y2, NDiv(NAdd(c.p, NOne), <<4>>), c.p)
         IN IF FSq(y, c.p) # y2 THEN NoPoint
            ELSE IF y = << >> /\ odd THEN NoPoint
            ELSE <<x, WithParity(y, odd, c.p)>>
DecodePoint(c, w, b) ==
    IF b = <<0>> THEN Inf
    ELSE IF b = << >> THEN NoPoint
    ELSE IF b[1] \in {2, 3} /\ Len(b) = w + 1 THEN LiftX(c, FromBE(Tail(b)), b[1] = 3)
    ELSE IF b[1] = 4 /\ Len(b) = 2 * w + 1
         THEN LET P == <<FromBE(SubSeq(b, 2, w + 1)), FromBE(SubSeq(b, w + 2, 2 * w + 1))>>
              IN IF NLt(P[1], c.p) /\ NLt(P[2], c.p) /\ OnCurve(c, P) THEN P ELSE NoPoint
    ELSE NoPoint

-----------------------------------------------------------------------------
\* ECDSA with group order n and base point G; e, d, k naturals
VerifyEq(c, G, n, Y, e, r, s) ==
    /\ r # << >> /\ s # << >> /\ NLt(r, n) /\ NLt(s, n)
    /\ LET w == NInvMod(s, n)
           R == ECAdd(c, ECMul(c, FMul(e, w, n), G), ECMul(c, FMul(r, w, n), Y))
       IN R # Inf /\ NMod(R[1], n) = r

-----------------------------------------------------------------------------
\* named curves (SEC 2)
H(s) == FromBE(HexDecode(s))
TwoTo(k) == NPow(<<2>>, k)
P256p == NAdd(NSub(NAdd(NSub(TwoTo(256), TwoTo(224)), TwoTo(192)), NSub(NOne, NOne)), NSub(TwoTo(96), NOne))
P256 == [p |-> P256p, a |-> NSub(P256p, <<3>>),
         b |-> Rev(<<90, 198, 53, 216, 170, 58, 147, 231, 179, 235, 189, 85, 118, 152, 134, 188, 101, 29, 6, 176, 204, 83, 176, 246, 59, 206, 60, 62, 39, 210, 96, 75>>)]
P256n == Rev(<<255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 188, 230, 250, 173, 167, 23, 158, 132, 243, 185, 202, 194, 252, 99, 37, 81>>)
P256G == <<Rev(<<107, 23, 209, 242, 225, 44, 66, 71, 248, 188, 230, 229, 99, 164, 64, 242, 119, 3, 125, 129, 45, 235, 51, 160, 244, 161, 57, 69, 216, 152, 194, 150>>),
           Rev(<<79, 227, 66, 226, 254, 26, 127, 155, 142, 231, 235, 74, 124, 15, 158, 22, 43, 206, 51, 87, 107, 49, 94, 206, 203, 182, 64, 104, 55, 191, 81, 245>>)>>
K256p == NSub(NSub(TwoTo(256), TwoTo(32)), NFromInt(977))
K256 == [p |-> K256p, a |-> << >>, b |-> <<7>>]
K256n == Rev(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>)
K256G == <<Rev(<<121, 190, 102, 126, 249, 220, 187, 172, 85, 160, 98, 149, 206, 135, 11, 7, 2, 155, 252, 219, 45, 206, 40, 217, 89, 242, 129, 91, 22, 248, 23, 152>>),
           Rev(<<72, 58, 218, 119, 38, 163, 196, 101, 93, 164, 251, 252, 14, 17, 8, 168, 253, 23, 180, 72, 166, 133, 84, 25, 156, 71, 208, 143, 251, 16, 212, 184>>)>>
=============================================================================
