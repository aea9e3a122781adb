------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte sequences, hexadecimal text and character encodings.  A text is    *)
(* the sequence of its code points, a byte string the sequence of its      *)
(* bytes.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

\* every argument and result of a recorded operation is such a value:
\* k its kind, v a flat sequence of integers, c the values it contains
Val(k, v, c) == [k |-> k, v |-> v, c |-> c]
VNone == Val("none", << >>, << >>)
VErr == Val("err", << >>, << >>)
VBool(b) == Val("bool", IF b THEN <<0, 1>> ELSE <<0>>, << >>)
VInt(z) == Val("int", z, << >>)
VBytes(b) == Val("bytes", b, << >>)
VStr(s) == Val("str", s, << >>)
VList(c) == Val("list", << >>, c)
IsErr(r) == r.k = "err"
IsIntLike(x) == x.k \in {"int", "bigint", "bool"}     \* Python's int and its subclasses

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Zeros(n) == [i \in 1..n |-> 0]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* the concatenation of a sequence of sequences, divide and conquer so that
\* long sequences need only logarithmic recursion depth
RECURSIVE FlatFromTo(_, _, _)
FlatFromTo(ss, i, j) ==
    IF i > j THEN << >>
    ELSE IF i = j THEN ss[i]
    ELSE LET m == (i + j) \div 2 IN FlatFromTo(ss, i, m) \o FlatFromTo(ss, m + 1, j)
Flat(ss) == FlatFromTo(ss, 1, Len(ss))

RECURSIVE StripRight(_, _)
StripRight(s, b) == IF s # << >> /\ s[Len(s)] = b THEN StripRight(SubSeq(s, 1, Len(s) - 1), b) ELSE s
RECURSIVE StripLeft(_, _)
StripLeft(s, b) == IF s # << >> /\ s[1] = b THEN StripLeft(Tail(s), b) ELSE s

BitXor(a, b) ==      \* of two bytes
    LET bit(x, k) == (x \div (2^k)) % 2
        d(k) == IF bit(a, k) = bit(b, k) THEN 0 ELSE 2^k
    IN d(0) + d(1) + d(2) + d(3) + d(4) + d(5) + d(6) + d(7)
XorBytes(a, b) == [i \in 1..Len(a) |-> BitXor(a[i], b[i])]

-----------------------------------------------------------------------------
\* hexadecimal

HexDigit == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
IsHexChar(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : IsHexChar(s[i])
HexEncode(b) == [i \in 1..2 * Len(b) |->
                   LET x == b[(i + 1) \div 2] IN HexDigit[1 + IF i % 2 = 1 THEN x \div 16 ELSE x % 16]]
HexDecode(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]

-----------------------------------------------------------------------------
\* character encodings

IsSurrogate(c) == c \in 55296..57343
Utf8Of(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
LE16(u) == <<u % 256, u \div 256>>
BE16(u) == <<u \div 256, u % 256>>
Utf16Of(c, e(_)) == IF c < 65536 THEN e(c)
                    ELSE e(55296 + (c - 65536) \div 1024) \o e(56320 + ((c - 65536) % 1024))
Utf32Of(c) == <<c % 256, (c \div 256) % 256, c \div 65536, 0>>
MapFlat(s, e(_)) == Flat([i \in 1..Len(s) |-> e(s[i])])
LimitOf(enc) == CASE enc = "ascii" -> 127 [] enc = "latin-1" -> 255 [] OTHER -> 1114111
Encodings == {"utf-8", "ascii", "latin-1", "utf-16", "utf-16-le", "utf-16-be", "utf-32-le"}
Encodable(s, enc) == \A i \in 1..Len(s) : s[i] <= LimitOf(enc) /\ ~IsSurrogate(s[i])
EncodeText(s, enc) ==
    CASE enc \in {"ascii", "latin-1"} -> s
      [] enc = "utf-8" -> IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE MapFlat(s, Utf8Of)
      [] enc = "utf-16-le" -> MapFlat(s, LAMBDA c : Utf16Of(c, LE16))
      [] enc = "utf-16-be" -> MapFlat(s, LAMBDA c : Utf16Of(c, BE16))
      [] enc = "utf-16" -> <<255, 254>> \o MapFlat(s, LAMBDA c : Utf16Of(c, LE16))
      [] enc = "utf-32-le" -> MapFlat(s, Utf32Of)
=============================================================================
