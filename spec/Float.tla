------------------------------- MODULE Float -------------------------------
(***************************************************************************)
(* IEEE-754 binary32 and binary64.  A floating-point value is the sequence *)
(* <<class, sign, exponent + 2000>> \o mantissa: class 0 finite, 1 infinite*)
(* and 2 not a number; a finite value is (-1)^sign * mantissa * 2^exponent *)
(* with an odd mantissa, or zero with exponent 0.                          *)
(***************************************************************************)
EXTENDS Big, Bytes

FInf(s) == <<1, s, 2000>>
FNan == <<2, 0, 2000>>
FFin(s, m, e) == <<0, s, e + 2000>> \o m
FClass(f) == f[1]
FSign(f) == f[2]
FExp(f) == f[3] - 2000
FMant(f) == SubSeq(f, 4, Len(f))

RECURSIVE TrailingZeros(_)
TrailingZeros(m) == IF m[1] = 0 THEN 8 + TrailingZeros(Tail(m))
                    ELSE CHOOSE k \in 0..7 : m[1] % (2^k) = 0 /\ (m[1] \div (2^k)) % 2 = 1
FNormal(s, m, e) == IF m = << >> THEN FFin(s, << >>, 0)
                    ELSE LET k == TrailingZeros(m) IN FFin(s, NShr(m, k), e + k)
FOfInt(z) == FNormal(z[1], ZMag(z), 0)

\* m * 2^e rounded to a multiple of 2^u, ties to even, as that multiple
RoundUnit(m, e, u) ==
    IF e >= u THEN NShl(m, e - u)
    ELSE LET k == u - e
             q == NShr(m, k)
             r == NSub(m, NShl(q, k))
             h == NShl(NOne, k - 1)
         IN IF NLt(h, r) \/ (h = r /\ NOdd(q)) THEN NAdd(q, NOne) ELSE q

\* a format: precision p, exponent of the smallest unit lo, of the largest hi
F32 == [p |-> 24, lo |-> -149, hi |-> 104, w |-> 4]
F64 == [p |-> 53, lo |-> -1074, hi |-> 971, w |-> 8]

\* the multiple q of 2^u that represents m * 2^e, << >> when it overflows
RoundTo(fmt, m, e) ==
    LET u == Max(NBitLen(m) + e - fmt.p, fmt.lo)
        q == RoundUnit(m, e, u)
        qu == IF NBitLen(q) > fmt.p THEN [q |-> NShr(q, 1), u |-> u + 1] ELSE [q |-> q, u |-> u]
    IN IF m # << >> /\ qu.u > fmt.hi THEN [q |-> << >>, u |-> 9999] ELSE qu
Overflows(fmt, f) == FClass(f) = 0 /\ FMant(f) # << >> /\ RoundTo(fmt, FMant(f), FExp(f)).u = 9999
\* f rounded to the format (not overflowing)
FRound(fmt, f) == IF FClass(f) # 0 \/ FMant(f) = << >> THEN f
                  ELSE LET r == RoundTo(fmt, FMant(f), FExp(f)) IN FNormal(FSign(f), r.q, r.u)

PadTo(b, n) == b \o Zeros(n - Len(b))
SignBit(fmt, s) == IF s = 1 THEN NShl(NOne, 8 * fmt.w - 1) ELSE << >>
\* little-endian bytes of a value that fits the format (not for NaN)
FEncode(fmt, f) ==
    LET s == SignBit(fmt, FSign(f))
        body == IF FClass(f) = 1 THEN NShl(NFromInt(fmt.hi - fmt.lo + 2), fmt.p - 1)
                ELSE IF FMant(f) = << >> THEN << >>
                ELSE LET r == RoundTo(fmt, FMant(f), FExp(f))
                     IN NAdd(r.q, NShl(NFromInt(r.u - fmt.lo), fmt.p - 1))
    IN PadTo(NAdd(s, body), fmt.w)
FDecode(fmt, bytes) ==
    LET n == NNorm(bytes)
        s == IF bytes[Len(bytes)] >= 128 THEN 1 ELSE 0
        rest == IF s = 1 THEN NSub(n, SignBit(fmt, 1)) ELSE n
        ex == NToInt(NShr(rest, fmt.p - 1))
        fr == NSub(rest, NShl(NFromInt(ex), fmt.p - 1))
    IN IF ex = fmt.hi - fmt.lo + 2 THEN (IF fr = << >> THEN FInf(s) ELSE FNan)
       ELSE IF ex = 0 THEN FNormal(s, fr, fmt.lo)
       ELSE FNormal(s, NAdd(fr, NShl(NOne, fmt.p - 1)), fmt.lo + ex - 1)
=============================================================================
