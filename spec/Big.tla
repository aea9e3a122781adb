-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary-precision arithmetic for TLC, whose own integers are 32 bit.  *)
(*                                                                         *)
(* A natural number is the sequence of its base-256 digits, least          *)
(* significant first, without trailing zeros; zero is << >>.  An integer   *)
(* is <<s>> \o m with s = 1 for negative numbers and m a natural, zero     *)
(* being <<0>>.  Everything below is defined in plain TLA+; when           *)
(* java/Big.java is on TLC's class path the natural-number operators are   *)
(* evaluated by java.math.BigInteger instead (the same functions, only     *)
(* faster).  BigSelfTest.tla evaluates both and the setup compares them.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

NIsDigits(a) == \A i \in 1..Len(a) : a[i] \in 0..255

RECURSIVE NNorm(_)
NNorm(a) == IF a = << >> \/ a[Len(a)] # 0 THEN a ELSE NNorm(SubSeq(a, 1, Len(a)-1))

NZero == << >>
NOne == <<1>>
DigitAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NFromInt(_)
NFromInt(i) == IF i = 0 THEN << >> ELSE <<i % 256>> \o NFromInt(i \div 256)

RECURSIVE NToInt(_)
NToInt(a) == IF a = << >> THEN 0 ELSE a[1] + 256 * NToInt(Tail(a))

RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE NCmpFrom(a, b, i-1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpFrom(a, b, Len(a))
NLt(a, b) == NCmp(a, b) = -1
NLe(a, b) == NCmp(a, b) # 1

RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET s == DigitAt(a, i) + DigitAt(b, i) + c
         IN <<s % 256>> \o NAddFrom(a, b, i+1, s \div 256)
NAdd(a, b) == NAddFrom(a, b, 1, 0)

\* a - b, for a >= b
RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, c) ==
    IF i > Len(a) THEN << >>
    ELSE LET s == DigitAt(a, i) - DigitAt(b, i) - c
         IN <<s % 256>> \o NSubFrom(a, b, i+1, IF s < 0 THEN 1 ELSE 0)
NSub(a, b) == NNorm(NSubFrom(a, b, 1, 0))

RECURSIVE NMulDigit(_, _, _, _)
NMulDigit(a, d, i, c) ==
    IF i > Len(a) THEN NFromInt(c)
    ELSE LET s == a[i] * d + c IN <<s % 256>> \o NMulDigit(a, d, i+1, s \div 256)
RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) ==
    IF i > Len(b) THEN << >>
    ELSE NAdd(NNorm(NMulDigit(a, b[i], 1, 0)), NNorm(<<0>> \o NMulFrom(a, b, i+1)))
NMul(a, b) == NNorm(NMulFrom(a, b, 1))

\* <<quotient, remainder>> of a by b # 0: schoolbook division, one base-256
\* digit at a time from the top.
RECURSIVE NDigitQuot(_, _, _, _)
NDigitQuot(r, b, lo, hi) ==          \* greatest q in lo..hi with q*b <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF NLe(NMul(b, NFromInt(m)), r) THEN NDigitQuot(r, b, m, hi) ELSE NDigitQuot(r, b, lo, m-1)
RECURSIVE NDivFrom(_, _, _, _, _)
NDivFrom(a, b, i, q, r) ==
    IF i = 0 THEN <<NNorm(q), r>>
    ELSE LET r1 == NNorm(<<a[i]>> \o r)
             d == NDigitQuot(r1, b, 0, 255)
         IN NDivFrom(a, b, i-1, <<d>> \o q, NSub(r1, NMul(b, NFromInt(d))))
NDivMod(a, b) == NDivFrom(a, b, Len(a), << >>, << >>)
NDiv(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]

\* a^k for a TLC integer k >= 0
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN NOne
              ELSE IF k % 2 = 0 THEN NPow(NMul(a, a), k \div 2)
              ELSE NMul(a, NPow(NMul(a, a), k \div 2))

NOdd(a) == a # << >> /\ a[1] % 2 = 1
NHalf(a) == NDivMod(a, <<2>>)[1]

\* a^e mod m for a natural e
RECURSIVE NPowMod(_, _, _)
NPowMod(a, e, m) ==
    IF e = << >> THEN NMod(NOne, m)
    ELSE LET h == NPowMod(NMod(NMul(a, a), m), NHalf(e), m)
         IN IF NOdd(e) THEN NMod(NMul(a, h), m) ELSE h

\* inverse of a modulo a prime m (0 for a = 0): Fermat
NInvMod(a, m) == NPowMod(NMod(a, m), NSub(m, <<2>>), m)

\* number of bits
RECURSIVE BitsOfDigit(_)
BitsOfDigit(d) == IF d = 0 THEN 0 ELSE 1 + BitsOfDigit(d \div 2)
NBitLen(a) == IF a = << >> THEN 0 ELSE 8 * (Len(a) - 1) + BitsOfDigit(a[Len(a)])

\* a * 2^k and a \div 2^k for a TLC integer k >= 0
NShl(a, k) == NMul(a, NPow(<<2>>, k))
NShr(a, k) == NDiv(a, NPow(<<2>>, k))

-----------------------------------------------------------------------------
\* integers

ZNeg1(z) == z[1] = 1
ZMag(z) == Tail(z)
ZMk(s, m) == IF m = << >> THEN <<0>> ELSE <<s>> \o m
ZNat(m) == <<0>> \o m
ZFromInt(i) == IF i < 0 THEN <<1>> \o NFromInt(-i) ELSE <<0>> \o NFromInt(i)
ZZero == <<0>>
ZIsZero(z) == Len(z) = 1
ZWellFormed(z) == /\ Len(z) >= 1 /\ z[1] \in {0, 1}
                  /\ NIsDigits(Tail(z))
                  /\ (Len(z) = 1 => z[1] = 0)
                  /\ (Len(z) > 1 => z[Len(z)] # 0)

ZNeg(z) == ZMk(1 - z[1], ZMag(z))
ZAbs(z) == <<0>> \o ZMag(z)
ZCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN NCmp(ZMag(x), ZMag(y)) ELSE NCmp(ZMag(y), ZMag(x))
ZLt(x, y) == ZCmp(x, y) = -1
ZLe(x, y) == ZCmp(x, y) # 1
ZAdd(x, y) == IF x[1] = y[1] THEN ZMk(x[1], NAdd(ZMag(x), ZMag(y)))
              ELSE IF NCmp(ZMag(x), ZMag(y)) # -1 THEN ZMk(x[1], NSub(ZMag(x), ZMag(y)))
              ELSE ZMk(y[1], NSub(ZMag(y), ZMag(x)))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == ZMk(IF x[1] = y[1] THEN 0 ELSE 1, NMul(ZMag(x), ZMag(y)))
\* quotient truncated toward zero
ZTruncDiv(x, y) == ZMk(IF x[1] = y[1] THEN 0 ELSE 1, NDiv(ZMag(x), ZMag(y)))
\* quotient rounded toward minus infinity, and the remainder that goes with it
ZFloorDiv(x, y) ==
    LET qr == NDivMod(ZMag(x), ZMag(y))
    IN IF x[1] = y[1] THEN ZMk(0, qr[1])
       ELSE IF qr[2] = << >> THEN ZMk(1, qr[1])
       ELSE ZMk(1, NAdd(qr[1], NOne))
ZMod(x, y) == ZSub(x, ZMul(ZFloorDiv(x, y), y))
ZPow(x, k) == ZMk(IF k % 2 = 0 THEN 0 ELSE x[1], NPow(ZMag(x), k))
ZShl(x, k) == ZMk(x[1], NShl(ZMag(x), k))
ZShr(x, k) == ZFloorDiv(x, ZNat(NPow(<<2>>, k)))
ZToInt(z) == IF z[1] = 1 THEN -NToInt(ZMag(z)) ELSE NToInt(ZMag(z))
\* residue in 0..m-1 of an integer, as a natural
ZResidue(z, m) == LET r == NMod(ZMag(z), m)
                  IN IF z[1] = 0 \/ r = << >> THEN r ELSE NSub(m, r)
=============================================================================
