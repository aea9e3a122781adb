------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* Bounded exploration of the numbers of NeoNum.                           *)
(*  "arith":  all pairs of a set of boundary values and all operators; the *)
(*            laws that tie the operators together (q*d+r=n, signs of the  *)
(*            remainder, order) are checked for each pair.                 *)
(*  "bytes":  encodings of all integers around the powers of two up to     *)
(*            2^Width, round trip and minimality.                          *)
(*  "texts":  every text of up to Depth characters over a small alphabet,  *)
(*            read as a numeral; canonical texts round trip.               *)
(*  "hist":   histories of Depth operations over shared amounts.           *)
(***************************************************************************)
EXTENDS NeoNum, TLC, Json
CONSTANTS Mode, Kind, Depth, Width, EmitEvery

S(op, t, a) == [op |-> op, t |-> t, a |-> a]
O(i) == Val("obj", <<i>>, << >>)
MakeArg(k, z) == IF k = "fixed8" THEN Val("fixed8", << >>, <<VInt(z)>>) ELSE Val("bigint", z, << >>)
P2(k) == ZNat(Bits2(k))
One == ZFromInt(1)
Around(z) == {ZSub(z, One), z, ZAdd(z, One)}
Signed(T) == T \cup {ZNeg(z) : z \in T}
Values == Signed({ZZero, One, ZFromInt(2), ZFromInt(3), ZFromInt(7)} \cup Around(P2(8)) \cup Around(D)
                 \cup Around(ZMul(D, ZFromInt(3))) \cup Around(P2(53)) \cup Around(P2(64)) \cup {P2(200)})
Few == Signed({ZZero, One, ZFromInt(3), D, ZAdd(P2(53), One)})
BinOps == IF Kind = "fixed8" THEN {"Add", "Sub", "Mul", "TrueDiv", "FloorDiv", "Mod"} \cup Comparisons
          ELSE {"Add", "Sub", "Mul", "TrueDiv", "FloorDiv", "Mod", "Equals", "HashEq"} \cup Comparisons
UnOps == IF Kind = "fixed8" THEN {"Neg", "Ceil", "Floor", "ToInt", "ToString", "ToNeoJsonString", "Reparse", "ReparseJson", "GetData"}
         ELSE {"Neg", "Abs", "Sign", "ToByteArray", "str"}
HistOps == IF Kind = "fixed8" THEN {"Add", "IAdd", "ISub", "IMul", "Neg", "Ceil", "TrueDiv", "ITrueDiv", "IMod"} ELSE {"Add", "IAdd", "Sub", "IMul", "Neg", "FloorDiv"}
Consts == IF Kind = "fixed8" THEN {"FD", "One", "Satoshi", "Zero", "NegativeSatoshi"} ELSE {"BigZero", "BigOne"}
Alphabet == {48, 57, 46, 45, 101, 32}         \* 0 9 . - e space
ByteVals == {ZNeg(z) : z \in UNION {Around(P2(k)) : k \in 0..Width}} \cup UNION {Around(P2(k)) : k \in 0..Width}
            \cup {ZFromInt(i) : i \in -300..300}

RECURSIVE SetSeq(_)
SetSeq(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE e \in T : TRUE IN <<x>> \o SetSeq(T \ {x})
Trichotomy(x, y) == /\ ZCmp(x, y) \in {-1, 0, 1}
                    /\ ZCmp(x, y) = -ZCmp(y, x)
                    /\ (ZCmp(x, y) = 0) <=> x = y
                    /\ (ZCmp(x, y) = -1) <=> ZNeg1(ZSub(x, y))

VARIABLES st, hist
vars == <<st, hist>>
Init == /\ st = << >>
        /\ hist = << >>
Res(s) == Spec(st, s.op, s.t, s.a)
Do(s) == /\ st' = IF Res(s).o = "num" THEN Append(st, Num(Res(s).k, Res(s).v)) ELSE st
         /\ hist' = Append(hist, s)
Next ==
    CASE Mode = "arith" ->
           \/ Len(hist) = 0 /\ \E x \in Values : Do(S("Make", 0, <<MakeArg(Kind, x)>>))
           \/ Len(hist) = 1 /\ \E y \in Values : Do(S("Make", 0, <<MakeArg(Kind, y)>>))
      [] Mode = "bytes" -> Len(hist) = 0 /\ \E x \in ByteVals : Do(S("Make", 0, <<MakeArg("bigint", x)>>))
      [] Mode = "texts" -> Len(hist) < Depth /\ \E c \in Alphabet : hist' = Append(hist, c) /\ st' = st
      [] OTHER ->
           Len(hist) < Depth /\ \E s \in
               {S(c, 0, << >>) : c \in Consts}
               \cup (IF Len(hist) < 2 THEN {S("Make", 0, <<MakeArg(Kind, x)>>) : x \in Few} ELSE {})
               \cup {S(op, i, IF op \in {"Neg", "Ceil"} THEN << >> ELSE <<O(j)>>) : op \in HistOps, i \in 1..Len(st), j \in 1..Len(st)} : Do(s)

ArithDone == Mode = "arith" /\ Len(hist) = 2
Laws ==
    ArithDone =>
      LET x == st[1].z
          y == st[2].z
          r(op) == Spec(st, op, 1, <<O(2)>>).v
      IN /\ ZAdd(r("Sub"), y) = x
         /\ ZSub(r("Add"), y) = x
         /\ \A op \in {"Add", "Sub", "Mul"} : ZWellFormed(r(op))
         /\ (~ZIsZero(y) =>
              /\ ZAdd(ZMul(r("FloorDiv"), y), r("Mod")) = x
              /\ (ZIsZero(r("Mod")) \/ r("Mod")[1] = y[1])
              /\ ZLt(ZAbs(r("Mod")), ZAbs(y))
              /\ LET q == r("TrueDiv") IN
                   IF Kind = "bigint" THEN q = r("FloorDiv")
                   ELSE /\ ZLe(ZAbs(ZMul(q, y)), ZAbs(x)) /\ ZLt(ZSub(ZAbs(x), ZAbs(ZMul(q, y))), ZAbs(y))
                        /\ (ZIsZero(q) \/ (q[1] = 1) = (x[1] # y[1])))
         /\ Trichotomy(x, y)
Rounding ==
    (Mode = "arith" /\ Len(hist) = 1 /\ Kind = "fixed8") =>
      LET x == st[1].z
          c == Spec(st, "Ceil", 1, << >>).v
          f == Spec(st, "Floor", 1, << >>).v
          i == Spec(st, "ToInt", 1, << >>).v.v
      IN /\ ZLe(f, x) /\ ZLe(x, c) /\ ZLt(ZSub(c, f), ZMul(D, ZFromInt(2)))
         /\ ZIsZero(ZMod(c, D)) /\ ZIsZero(ZMod(f, D))
         /\ (c = f <=> ZIsZero(ZMod(x, D)))
         /\ i = ZTruncDiv(IF ZNeg1(x) THEN c ELSE f, D)
         /\ LET n == Numeral(AmountText(x)) IN n.ok /\ Units(n) = x
Encodings2 ==
    (Mode = "bytes" /\ Len(hist) = 1) =>
      LET z == st[1].z
          w == SignedWidth(z)
      IN /\ FitsSigned(z, w) /\ (w = 1 \/ ~FitsSigned(z, w - 1))
         /\ Decode(Encode(z, w), TRUE) = z
         /\ ToBytesOk(z, TRUE, IF ZIsZero(z) THEN <<0>> ELSE Encode(z, w))
         /\ (~ZNeg1(z) => Decode(ZMag(z), FALSE) = z)
Emit ==
    CASE Mode = "texts" ->
           (hist # << >> =>
              /\ LET n == Numeral(hist) IN n.ok => ~Undetermined(hist)
              /\ PrintT("PROG " \o ToJson(<<S("TryParse", 0, <<VStr(hist)>>), S("TryParse", 0, <<VStr(hist), VBool(TRUE)>>)>>)))
      [] Mode = "arith" ->
           (Len(hist) = 2 /\ TLCGet("distinct") % EmitEvery = 0) =>
              PrintT("PROG " \o ToJson(hist \o SetSeq({S(op, 1, <<O(2)>>) : op \in BinOps}) \o SetSeq({S(op, 1, << >>) : op \in UnOps})))
      [] Mode = "bytes" ->
           (Len(hist) = 1) =>
              PrintT("PROG " \o ToJson(hist \o <<S("ToByteArray", 1, << >>), S("ToByteArray", 1, <<VBool(FALSE)>>),
                   S("FromBytes", 0, <<VBytes(Encode(st[1].z, SignedWidth(st[1].z))), VBool(TRUE)>>),
                   S("FromBytes", 0, <<VBytes(Encode(st[1].z, SignedWidth(st[1].z) + 1)), VBool(TRUE)>>),
                   S("FromBytes", 0, <<VBytes(Encode(st[1].z, SignedWidth(st[1].z)))>>),
                   S("FromBytes", 0, <<VBytes(Rev(Encode(st[1].z, SignedWidth(st[1].z)))), VBool(TRUE)>>)>>))
      [] OTHER -> (Len(hist) = Depth /\ TLCGet("distinct") % EmitEvery = 0) => PrintT("PROG " \o ToJson(hist))
=============================================================================
