------------------------------- MODULE NeoNum -------------------------------
(***************************************************************************)
(* Fixed-point amounts (Fixed8) and big integers (BigInteger) as a heap of *)
(* numbers.                                                                *)
(*                                                                         *)
(* State: the numbers created so far, each [k |-> "fixed8" or "bigint",    *)
(* z |-> its units or value].  Operations append the number they return    *)
(* and never change an existing one.                                       *)
(***************************************************************************)
EXTENDS Big, Bytes

Num(k, z) == [k |-> k, z |-> z]
Ref(v) == v.v[1]
IsObj(v) == v.k = "obj"
D == ZFromInt(100000000)
P10(k) == NPow(<<10>>, k)

-----------------------------------------------------------------------------
\* decimal numerals: a text is <<sign, digits, exponent>> or nothing

IsDigit(c) == c \in 48..57
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
RECURSIVE SkipSpace(_)
SkipSpace(s) == IF s # << >> /\ IsSpace(s[1]) THEN SkipSpace(Tail(s)) ELSE s
RECURSIVE DropSpaceRight(_)
DropSpaceRight(s) == IF s # << >> /\ IsSpace(s[Len(s)]) THEN DropSpaceRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == DropSpaceRight(SkipSpace(s))
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitRun(s, i + 1) ELSE i      \* first index after the digits
SignLen(s) == IF s # << >> /\ s[1] \in {43, 45} THEN 1 ELSE 0
RECURSIVE NatOfDigits(_)
NatOfDigits(s) == IF s = << >> THEN << >>
                  ELSE IF Len(s) = 1 THEN NFromInt(s[1] - 48)
                  ELSE LET h == Len(s) \div 2
                       IN NAdd(NMul(NatOfDigits(Take(s, h)), P10(Len(s) - h)), NatOfDigits(Drop(s, h)))
NoNumeral == [ok |-> FALSE, s |-> 0, m |-> << >>, e |-> << >>]
\* [sign](digits [. digits] | . digits) [(e|E) [sign] digits]
Numeral(text) ==
    LET s == Strip(text)
        b == Drop(s, SignLen(s))
        i == DigitRun(b, 1)                                      \* integer part b[1..i-1]
        dot == i <= Len(b) /\ b[i] = 46
        j == IF dot THEN DigitRun(b, i + 1) ELSE i               \* fraction b[i+1..j-1]
        ip == Take(b, i - 1)
        fp == IF dot THEN SubSeq(b, i + 1, j - 1) ELSE << >>
        hasE == j <= Len(b) /\ b[j] \in {69, 101}
        es == Drop(b, j)
        eb == Drop(es, SignLen(es))
        m == NatOfDigits(ip \o fp)
        ez == IF hasE THEN ZMk(IF SignLen(es) = 1 /\ es[1] = 45 THEN 1 ELSE 0, NatOfDigits(eb)) ELSE ZZero
    IN IF ip \o fp = << >> THEN NoNumeral
       ELSE IF ~hasE /\ j # Len(b) + 1 THEN NoNumeral
       ELSE IF hasE /\ (eb = << >> \/ DigitRun(eb, 1) # Len(eb) + 1) THEN NoNumeral
       ELSE [ok |-> TRUE, s |-> IF SignLen(s) = 1 /\ s[1] = 45 THEN 1 ELSE 0, m |-> m,
             e |-> ZSub(ez, ZFromInt(Len(fp)))]
\* texts of other characters (letters, underscores, non-ASCII digits) are
\* never numerals, except that digit groups and digits of other scripts are
\* left to the implementation
PlainAscii(s) == \A i \in 1..Len(s) : s[i] \in 9..126 /\ s[i] # 95 /\ s[i] \notin 28..31
Undetermined(s) == ~PlainAscii(s)

\* units: the numeral times 10^8, truncated toward zero
Limit10 == ZFromInt(5000)
Tractable(n) == n.ok => ZLt(ZAbs(n.e), Limit10)
Units(n) == LET k == ZToInt(n.e) + 8
            IN ZMk(n.s, IF k >= 0 THEN NMul(n.m, P10(k)) ELSE NDiv(n.m, P10(-k)))
Negative(n) == n.s = 1 /\ n.m # << >>

\* canonical text of an amount, as the specification would write it
RECURSIVE Digits(_)
Digits(n) == IF n = << >> THEN << >> ELSE LET qr == NDivMod(n, <<10>>) IN Append(Digits(qr[1]), 48 + NToInt(qr[2]))
DigitsOr0(n) == IF n = << >> THEN <<48>> ELSE Digits(n)
AmountText(z) ==
    LET qr == NDivMod(ZMag(z), ZMag(D))
        f == Digits(NAdd(qr[2], ZMag(D)))        \* leading 1 keeps the zeros
    IN (IF ZNeg1(z) THEN <<45>> ELSE << >>) \o DigitsOr0(qr[1]) \o <<46>> \o Tail(f)

-----------------------------------------------------------------------------
\* two's-complement byte encodings of big integers

Bits2(k) == NShl(NOne, k)
FitsSigned(z, w) == IF ZNeg1(z) THEN NLe(ZMag(z), Bits2(8 * w - 1)) ELSE NLt(ZMag(z), Bits2(8 * w - 1))
Encode(z, w) == LET n == IF ZNeg1(z) THEN NSub(Bits2(8 * w), ZMag(z)) ELSE ZMag(z) IN n \o Zeros(w - Len(n))
Decode(b, signed) ==
    LET n == NNorm(b)
    IN IF signed /\ b # << >> /\ b[Len(b)] >= 128 THEN ZMk(1, NSub(Bits2(8 * Len(b)), n)) ELSE ZNat(n)
SignedWidth(z) == LET w == NBitLen(ZMag(z)) \div 8 + 1 IN IF w > 1 /\ FitsSigned(z, w - 1) THEN w - 1 ELSE w
ToBytesOk(z, signed, b) ==
    IF ZIsZero(z) THEN b = <<0>>
    ELSE IF ZNeg1(z) THEN (~signed \/ (b # << >> /\ Decode(b, TRUE) = z))
    ELSE IF signed THEN b = Encode(z, SignedWidth(z))
    ELSE b = ZMag(z)

-----------------------------------------------------------------------------
\* results: "num" a new number, "val" a value, "fail" an error, "none",
\* "nothing" an error or none, "any" unspecified, "text"/"bytes": judged below
RNum(k, z) == [o |-> "num", k |-> k, v |-> z]
RVal(v) == [o |-> "val", k |-> "", v |-> v]
RText(z) == [o |-> "text", k |-> "", v |-> z]
RFail == [o |-> "fail", k |-> "", v |-> << >>]
RNone == [o |-> "none", k |-> "", v |-> << >>]
RNothing == [o |-> "nothing", k |-> "", v |-> << >>]
RNotTrue == [o |-> "nottrue", k |-> "", v |-> << >>]
RDigits(z) == [o |-> "digits", k |-> "", v |-> z]
\* the one decimal text of an integer
IsDigits(z, t) == LET n == Numeral(t)
                      d == IF t # << >> /\ t[1] = 45 THEN Tail(t) ELSE t
                  IN /\ n.ok /\ n.e = ZZero /\ n.m = ZMag(z)
                     /\ (Len(d) # Len(t)) = ZNeg1(z)
                     /\ \A i \in 1..Len(d) : d[i] \in 48..57
                     /\ (d[1] = 48 => Len(d) = 1)
RAny == [o |-> "any", k |-> "", v |-> << >>]

Compare(op, c) == CASE op = "Eq" -> c = 0 [] op = "Ne" -> c # 0 [] op = "Lt" -> c = -1
                    [] op = "Le" -> c # 1 [] op = "Gt" -> c = 1 [] OTHER -> c # -1
Comparisons == {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

Small(z) == ~ZNeg1(z) /\ Len(z) <= 3
Arith(k, op, x, y) ==
    CASE op \in {"Add", "IAdd"} -> RNum(k, ZAdd(x, y))
      [] op \in {"Sub", "ISub"} -> RNum(k, ZSub(x, y))
      [] op \in {"Mul", "IMul"} -> RNum(k, ZMul(x, y))
      [] op \in {"FloorDiv", "IFloorDiv"} -> IF ZIsZero(y) THEN (IF k = "bigint" THEN RFail ELSE RAny) ELSE RNum(k, ZFloorDiv(x, y))
      [] op \in {"TrueDiv", "ITrueDiv"} ->
           IF ZIsZero(y) THEN (IF k = "bigint" THEN RFail ELSE RAny)
           ELSE RNum(k, IF k = "bigint" THEN ZFloorDiv(x, y) ELSE ZTruncDiv(x, y))
      [] op \in {"Mod", "IMod"} -> IF ZIsZero(y) THEN (IF k = "bigint" THEN RFail ELSE RAny) ELSE RNum(k, ZMod(x, y))
      [] op \in {"Pow", "IPow"} -> IF k = "fixed8" /\ Small(y) THEN RNum(k, ZPow(x, ZToInt(y))) ELSE RAny
      [] op \in {"Shl", "IShl"} -> IF k = "bigint" /\ Small(y) THEN RNum(k, ZShl(x, ZToInt(y))) ELSE RAny
      [] op \in {"Shr", "IShr"} -> IF k = "bigint" /\ Small(y) THEN RNum(k, ZShr(x, ZToInt(y))) ELSE RAny
      [] OTHER -> RAny

\* what a value given to a conversion denotes
NumeralOf(v) == CASE v.k \in {"str", "dec", "bytes"} -> Numeral(v.v)
                  [] v.k = "float" -> Numeral(v.c[1].v)
                  [] v.k \in {"int", "bigint"} -> [ok |-> TRUE, s |-> v.v[1], m |-> ZMag(v.v), e |-> ZZero]
                  [] OTHER -> NoNumeral
Convert(v, positive, none) ==
    LET n == NumeralOf(v)
    IN IF v.k \in {"bool", "obj", "other"} \/ (v.k = "bytes" /\ none # RNone) THEN RAny
       ELSE IF v.k \in {"str", "bytes"} /\ Undetermined(v.v) /\ ~n.ok THEN RAny
       ELSE IF ~n.ok THEN none
       ELSE IF ~Tractable(n) THEN RAny
       ELSE IF positive /\ Negative(n) THEN none
       ELSE RNum("fixed8", Units(n))

\* amounts too long to be written out are compared by their residue modulo 2^61 - 1
M61 == NSub(NShl(NOne, 61), NOne)
Residue(n) == LET r == NMod(NMul(n.m, NPowMod(<<10>>, ZMag(ZAdd(n.e, ZFromInt(8))), M61)), M61)
              IN IF n.s = 1 THEN ZMod(ZMk(1, r), ZNat(M61)) ELSE ZNat(r)
ConvertResidue(v) == LET n == NumeralOf(v)
                     IN IF n.ok /\ ZLt(ZFromInt(-9), n.e) /\ ZLt(n.e, ZFromInt(999000)) THEN RVal(VInt(Residue(n))) ELSE RAny

\* t: the operand (its index; 0 none), a: arguments
Spec(st, op, t, a) ==
    LET x == st[t].z
        k == st[t].k
        y == IF IsObj(a[1]) THEN st[Ref(a[1])].z ELSE a[1].v
        same == IF IsObj(a[1]) THEN st[Ref(a[1])].k = k ELSE k = "bigint" /\ a[1].k \in {"int", "bool"}
        alien == ~IsObj(a[1]) /\ a[1].k \in {"str", "bytes", "none", "list"}      \* not a number at all
    IN CASE op = "Make" -> RNum(a[1].k, IF a[1].k = "fixed8" THEN a[1].c[1].v ELSE a[1].v)
         [] op \in {"FD", "One"} -> RNum("fixed8", D)
         [] op = "Satoshi" -> RNum("fixed8", ZFromInt(1))
         [] op = "NegativeSatoshi" -> RNum("fixed8", ZFromInt(-1))
         [] op = "Zero" -> RNum("fixed8", ZZero)
         [] op = "BigZero" -> RNum("bigint", ZZero)
         [] op = "BigOne" -> RNum("bigint", ZFromInt(1))
         [] op \in Comparisons -> IF same THEN RVal(VBool(Compare(op, ZCmp(x, y)))) 
                                   ELSE IF k = "bigint" /\ alien /\ op \in {"Eq", "Ne"} THEN RVal(VBool(op = "Ne")) ELSE RAny
         [] op = "Equals" -> IF same THEN RVal(VBool(x = y)) ELSE IF k = "bigint" /\ alien THEN RNotTrue ELSE RAny
         [] op = "HashEq" -> IF k = "bigint" /\ same /\ x = y THEN RVal(VBool(TRUE)) ELSE RAny
         [] op = "str" /\ k = "bigint" -> RDigits(x)
         [] op = "Neg" -> RNum(k, ZNeg(x))
         [] op = "Abs" -> IF k = "bigint" THEN RNum(k, ZAbs(x)) ELSE RAny
         [] op = "Sign" -> RVal(VInt(IF ZIsZero(x) THEN ZZero ELSE IF ZNeg1(x) THEN ZFromInt(-1) ELSE ZFromInt(1)))
         [] op = "GetData" -> RVal(VInt(x))
         [] op = "Ceil" -> RNum(k, ZMul(ZNeg(ZFloorDiv(ZNeg(x), D)), D))
         [] op = "Floor" -> RNum(k, ZMul(ZFloorDiv(x, D), D))
         [] op = "ToInt" -> RVal(VInt(ZTruncDiv(x, D)))
         [] op \in {"ToString", "str", "ToNeoJsonString"} -> IF k = "fixed8" THEN RText(x) ELSE RAny
         [] op \in {"Reparse", "ReparseJson", "Roundtrip"} -> RNum(k, x)         \* parsing what was formatted
         [] op = "ToByteArray" -> [o |-> "bytes", k |-> IF a # << >> /\ a[1] = VBool(FALSE) THEN "u" ELSE "s", v |-> x]
         [] op = "FromBytes" -> RNum("bigint", Decode(a[1].v, Len(a) > 1 /\ a[2] = VBool(TRUE)))
         [] op = "FromDecimal" -> Convert(a[1], FALSE, RNothing)
         [] op \in {"TryParseResidue", "FromDecimalResidue"} -> ConvertResidue(a[1])
         [] op = "TryParse" -> Convert(a[1], Len(a) > 1 /\ a[2] = VBool(TRUE), RNone)
         [] OTHER -> IF same THEN Arith(k, op, x, y) ELSE RAny

-----------------------------------------------------------------------------
\* Verdicts.  ev.objs: every number alive afterwards; ev.r: the result, "new"
\* when it is the number appended last, "same" when an existing one came back.

\* known finding tostring: amounts of 2^26 whole units and more are formatted
\* through a binary floating-point quotient
LargeUnits == ZMul(ZFromInt(67108864), D)
IsLarge(z) == ZLe(LargeUnits, ZAbs(z))
Near(z, u) == NLe(NShl(ZMag(ZSub(z, u)), 52), ZMag(z))
TextVerdict(op, z, r) ==
    LET n == Numeral(r.v)
        exact == n.ok /\ ZLt(ZNeg(ZFromInt(400)), n.e) /\ ZLt(n.e, ZFromInt(400))
                 /\ (IF ZToInt(n.e) + 8 >= 0 THEN TRUE ELSE NMod(n.m, P10(-ZToInt(n.e) - 8)) = << >>)
    IN IF IsErr(r) THEN (IF NLe(NShl(NOne, 1023), ZMag(z)) THEN "known:tostring" ELSE "formatting failed")
       ELSE IF r.k # "str" \/ ~exact THEN "not a decimal text of the amount"
       ELSE IF op = "ToNeoJsonString" /\ EndsWith(r.v, <<46, 48>>) THEN "trailing .0 in the JSON form"
       ELSE IF Units(n) = z THEN ""
       ELSE IF IsLarge(z) /\ Near(z, Units(n)) THEN "known:tostring" ELSE "text denotes another amount"

ObsNum(o) == IF o.k = "fixed8" THEN (IF o.c[1].k = "int" THEN Num("fixed8", o.c[1].v) ELSE Num("damaged", << >>))
             ELSE IF o.k = "bigint" THEN Num("bigint", o.v) ELSE Num(o.k, << >>)
MustBeNew(k, op) == k = "fixed8" /\ op \in {"Add", "Sub", "Mul", "TrueDiv", "FloorDiv", "Mod", "Pow", "Neg", "IAdd", "ISub", "IMul",
                                            "ITrueDiv", "IFloorDiv", "IMod", "IPow"}
Judge(st, ev) ==
    IF ev.op = "Reset" THEN <<"", << >>>>
    ELSE LET obs == [i \in 1..Len(ev.objs) |-> ObsNum(ev.objs[i])]
             n == Len(st)
             out == Spec(st, ev.op, ev.t, ev.a)
             made == Len(obs) > n
             got == obs[n + 1]
             why ==
               IF ev.r.k = "timeout" THEN "operation does not end"
               ELSE IF \E i \in 1..n : obs[i] # st[i] THEN "an operand or another number was altered by " \o ev.op
               ELSE IF ev.consts # <<ZZero, ZFromInt(1), D>> THEN "a shared constant was altered"
               ELSE CASE out.o = "any" -> ""
                 [] out.o = "fail" -> IF IsErr(ev.r) THEN "" ELSE "not refused: " \o ev.op
                 [] out.o = "none" -> IF ev.r = VNone /\ ~made THEN "" ELSE "an amount or an error for an unacceptable text"
                 [] out.o = "nothing" -> IF (IsErr(ev.r) \/ ev.r = VNone) /\ ~made THEN "" ELSE "an amount for an unacceptable number"
                 [] out.o = "val" -> IF ev.r = out.v THEN "" ELSE "wrong result of " \o ev.op
                 [] out.o = "nottrue" -> IF ev.r = VBool(TRUE) THEN "equal to what is no number" ELSE ""
                 [] out.o = "digits" -> IF ev.r.k = "str" /\ IsDigits(out.v, ev.r.v) THEN "" ELSE "not the decimal text of the number"
                 [] out.o = "text" -> TextVerdict(ev.op, out.v, ev.r)
                 [] out.o = "bytes" -> IF ev.r.k = "bytes" /\ ToBytesOk(out.v, out.k = "s", ev.r.v) THEN "" ELSE "wrong byte encoding"
                 [] OTHER ->
                      IF ev.r.k = "same"
                      THEN IF MustBeNew(out.k, ev.op) THEN "an operand is returned instead of a new amount by " \o ev.op
                           ELSE IF st[Ref(ev.r)] = Num(out.k, out.v) THEN "" ELSE "wrong result of " \o ev.op
                      ELSE IF ev.op \in {"Reparse", "ReparseJson"} /\ IsLarge(out.v) /\ (~made \/ (got.k = out.k /\ got.z # out.v /\ Near(out.v, got.z)))
                           THEN "known:tostring"
                      ELSE IF ~made THEN "no result from " \o ev.op
                      ELSE IF got # Num(out.k, out.v) THEN "wrong result of " \o ev.op
                      ELSE ""
         IN <<why, obs>>
=============================================================================
