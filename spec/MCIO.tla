-------------------------------- MODULE MCIO --------------------------------
(***************************************************************************)
(* Bounded exploration of the stream machine: every sequence of Depth      *)
(* writes over a small alphabet of operations and boundary values, on one  *)
(* or two streams.  Checked in every state: reading back what was written  *)
(* returns the same values and ends at the end of the data (ReadBack),     *)
(* every proper prefix of a stream makes the matching read fail or return  *)
(* only what is there (Truncation), refused values leave no trace, and a   *)
(* limit below the written length refuses before the content (Limits).     *)
(* Each complete behaviour is printed as a program for the real code.      *)
(***************************************************************************)
EXTENDS NeoIO, TLC, Json
CONSTANTS Profile, Depth, Streams, EmitEvery, Cuts

Step(op, a, x) == [op |-> op, s |-> 1, a |-> a, x |-> x]
Big1 == VStr(<<62>>)
P2(k) == ZNat(Pow2(k))
One == ZNat(NOne)
Around(z) == {ZSub(z, One), z, ZAdd(z, One)}
IntVals(w, signed) ==
    IF signed THEN Around(P2(8 * w - 1)) \cup Around(ZNeg(P2(8 * w - 1))) \cup Around(ZZero) \cup {ZNat([i \in 1..w |-> i])}
    ELSE Around(P2(8 * w)) \cup Around(P2(8 * w - 1)) \cup Around(ZZero) \cup {ZNat([i \in 1..w |-> 100 + i])}
FixedOps == {<<"WriteInt8", 1, TRUE>>, <<"WriteUInt8", 1, FALSE>>, <<"WriteInt16", 2, TRUE>>, <<"WriteUInt16", 2, FALSE>>,
             <<"WriteInt32", 4, TRUE>>, <<"WriteUInt32", 4, FALSE>>, <<"WriteInt64", 8, TRUE>>, <<"WriteUInt64", 8, FALSE>>}
VF(f) == Val("float", f, << >>)
Floats == {FFin(0, << >>, 0), FFin(1, << >>, 0), FFin(0, <<1>>, 0), FFin(1, <<3>>, -1), FInf(0), FInf(1), FNan,
           FFin(0, <<1>>, -149), FFin(0, <<1>>, -150), FFin(0, <<3>>, -151), FFin(0, <<255, 255, 255>>, 104),
           FFin(0, <<255, 255, 255, 1>>, 103), FFin(0, <<255, 255, 255, 3>>, 102), FFin(0, <<1>>, 128), FFin(0, <<1>>, -1074),
           FFin(1, <<1>>, 1023), FFin(0, <<1, 0, 0, 1>>, -20), FFin(0, <<3, 0, 0, 1>>, -20), FFin(0, <<5, 0, 0, 0, 0, 1>>, -3)}
FixedSteps ==
    UNION {{Step(o[1], <<VInt(z)>>, ""), Step(o[1], <<VInt(z), Big1>>, "")} : <<o, z>> \in
                UNION {{<<p, y>> : y \in IntVals(p[2], p[3])} : p \in FixedOps}}
    \cup UNION {{Step("WriteFloat", <<VF(f)>>, ""), Step("WriteFloat", <<VF(f), Big1>>, ""),
                 Step("WriteDouble", <<VF(f)>>, ""), Step("WriteDouble", <<VF(f), Big1>>, "")} : f \in Floats}
    \cup {Step("WriteBool", <<VBool(b)>>, "") : b \in BOOLEAN}
    \cup {Step("WriteChar", <<VBytes(b)>>, "") : b \in {<<0>>, <<97>>, <<255>>, << >>, <<1, 2>>}}
    \cup {Step("WriteByte", <<VInt(ZFromInt(i))>>, "") : i \in {-1, 0, 1, 127, 128, 255, 256}}
    \cup {Step("WriteFixed8", <<Val("fixed8", << >>, <<VInt(z)>>)>>, "") : z \in IntVals(8, TRUE)}
VarInts == UNION {Around(P2(k)) : k \in {0, 1, 7, 8, 15, 16, 31, 32, 63, 64}} \cup Around(ZFromInt(252)) \cup Around(ZFromInt(254))
           \cup {ZFromInt(-5)}
VarIntSteps == {Step("WriteVarInt", <<VInt(z)>>, "") : z \in VarInts}
               \cup {Step("WriteVarInt", <<v>>, "") : v \in {VStr(<<49>>), VNone, VF(FFin(0, <<1>>, 0)), VBytes(<<1>>)}}
Pay(n) == [i \in 1..n |-> (i * 7 + n) % 256]
Payloads == {<< >>, <<0>>, <<48, 48>>, <<97, 98, 99, 100>>, <<97, 98, 99>>, <<65, 70, 48, 57>>, <<255, 0, 0>>, <<97, 0>>,
             Pay(252), Pay(253), [i \in 1..254 |-> 102]}
Texts == {<< >>, <<97, 98>>, <<97, 98, 99>>, <<48, 48, 97, 97>>, <<233>>, <<8364, 97>>, <<128512>>, <<0>>, <<65, 0, 66>>, <<55296>>}
PayloadSteps ==
    {Step("WriteVarBytes", <<VBytes(b)>>, "") : b \in Payloads}
    \cup {Step("WriteVarString", <<VStr(t)>>, enc) : t \in Texts, enc \in Encodings}
    \cup {Step("WriteVarString", <<VBytes(b)>>, "utf-8") : b \in Payloads}
    \cup {Step("WriteFixedString", <<VStr(t), VInt(ZFromInt(n))>>, "") : t \in Texts, n \in {0, 1, 2, 3, 4, 8}}
    \cup {Step("WriteBytes", <<VBytes(b), VBool(u)>>, "") : b \in Payloads, u \in BOOLEAN}
    \cup {Step("WriteBytes", <<VBytes(b)>>, "") : b \in Payloads}
U(n, i) == VUInt(n, [j \in 1..n |-> (i * 37 + j * j) % 256])
H(i) == VStr(HashText([j \in 1..32 |-> IF i = 2 THEN 48 + (j % 10) ELSE (i * 91 + j * 5) % 256]))   \* the second one reads as hexadecimal
ItemOf(i) == Val("item", << >>, <<VInt(ZFromInt(i * 300)), VBytes(Pay(i))>>)
CollSteps ==
    {Step("WriteSerializableArray", <<VNone>>, ""), Step("WriteSerializableArray", <<VList(<< >>)>>, "UInt160")}
    \cup {Step("WriteSerializableArray", <<VList([i \in 1..n |-> U(20, i)])>>, "UInt160") : n \in {1, 2, 3}}
    \cup {Step("WriteSerializableArray", <<VList([i \in 1..n |-> U(32, i)])>>, "UInt256") : n \in {1, 2, 3}}
    \cup {Step("WriteSerializableArray", <<VList([i \in 1..n |-> ItemOf(i)])>>, "Item") : n \in {1, 2, 4}}
    \cup {Step("WriteSerializableArray", <<VList([i \in 1..n |-> Val("bag", << >>, [j \in 1..(3 - i) |-> ItemOf(j)])])>>, "Bag") : n \in {1, 2, 3}}
    \cup {Step("WriteSerializableArray", <<Val("nils", ZFromInt(n), << >>)>>, "Nil") : n \in {1, 252, 253, 65535, 65536, 70000}}
    \cup {Step("WriteHashes", <<VList([i \in 1..n |-> H(i)])>>, "") : n \in {0, 1, 2, 4}}
UIntSteps == {Step("WriteUInt160", <<U(20, i)>>, "") : i \in 1..3} \cup {Step("WriteUInt256", <<U(32, i)>>, "") : i \in 1..3}
             \cup {Step("WriteUInt160", <<U(32, 1)>>, ""), Step("WriteUInt256", <<U(20, 1)>>, ""),
                   Step("WriteUInt160", <<VBytes(Pay(20))>>, "")}
MixSteps ==
    {Step("WriteUInt16", <<VInt(ZFromInt(258))>>, ""), Step("WriteInt8", <<VInt(ZFromInt(-2))>>, ""),
     Step("WriteUInt32", <<VInt(ZFromInt(66051)), Big1>>, ""), Step("WriteDouble", <<VF(FFin(1, <<3>>, -1))>>, ""),
     Step("WriteBool", <<VBool(TRUE)>>, ""), Step("WriteVarInt", <<VInt(ZFromInt(253))>>, ""),
     Step("WriteVarBytes", <<VBytes(<<97, 98>>)>>, ""), Step("WriteVarString", <<VStr(<<97, 98, 8364>>)>>, "utf-8"),
     Step("WriteFixedString", <<VStr(<<48, 49>>), VInt(ZFromInt(5))>>, ""),
     Step("WriteFixed8", <<Val("fixed8", << >>, <<VInt(ZFromInt(-7))>>)>>, ""),
     Step("WriteUInt160", <<U(20, 4)>>, ""), Step("WriteHashes", <<VList(<<H(1)>>)>>, ""),
     Step("WriteSerializableArray", <<VList(<<ItemOf(2)>>)>>, "Item"), Step("WriteSerializableArray", <<VNone>>, "UInt256"),
     Step("WriteVarInt", <<VInt(P2(64))>>, ""), Step("WriteUInt8", <<VInt(ZFromInt(256))>>, "")}
Alphabet == CASE Profile = "fixed" -> FixedSteps
              [] Profile = "varint" -> VarIntSteps
              [] Profile = "payload" -> PayloadSteps
              [] Profile = "coll" -> CollSteps
              [] Profile = "uint" -> UIntSteps
              [] Profile = "all" -> FixedSteps \cup VarIntSteps \cup PayloadSteps \cup CollSteps \cup UIntSteps
              [] OTHER -> MixSteps

\* the read that matches a write: its arguments and what it must return
ReadOf(w) ==
    LET v == w.a[1]
        end == IF Len(w.a) > 1 /\ IsBig(Drop(w.a, 1)) THEN <<Big1>> ELSE << >>
        R(op, a, x, val) == [op |-> op, s |-> w.s, a |-> a, x |-> x, val |-> val]
        int(op) == R(op, end, "", VInt(v.v))
        fl(op, fmt) == R(op, end, "", VF(FRound(fmt, v.v)))
        out == WriteSpec(w.op, w.a, w.x)
        lower(b) == HexEncode(HexDecode(b))
    IN CASE w.op = "WriteInt8" -> int("ReadInt8") [] w.op = "WriteUInt8" -> int("ReadUInt8")
         [] w.op = "WriteInt16" -> int("ReadInt16") [] w.op = "WriteUInt16" -> int("ReadUInt16")
         [] w.op = "WriteInt32" -> int("ReadInt32") [] w.op = "WriteUInt32" -> int("ReadUInt32")
         [] w.op = "WriteInt64" -> int("ReadInt64") [] w.op = "WriteUInt64" -> int("ReadUInt64")
         [] w.op = "WriteFloat" -> fl("ReadFloat", F32) [] w.op = "WriteDouble" -> fl("ReadDouble", F64)
         [] w.op = "WriteBool" -> R("ReadBool", << >>, "", v) [] w.op = "WriteChar" -> R("ReadChar", << >>, "", v)
         [] w.op = "WriteByte" -> R("ReadByte", << >>, "", v)
         [] w.op = "WriteFixed8" -> R("ReadFixed8", << >>, "", v)
         [] w.op = "WriteVarInt" -> R("ReadVarInt", <<VInt(v.v)>>, "", VInt(v.v))
         [] w.op = "WriteVarBytes" -> R("ReadVarBytes", <<VInt(ZFromInt(Len(v.v)))>>, "", v)
         [] w.op = "WriteVarString" ->
              LET e == IF v.k = "bytes" THEN v.v ELSE EncodeText(v.v, w.x)
              IN R("ReadVarString", <<VInt(ZFromInt(Len(e)))>>, "", VBytes(e))
         [] w.op = "WriteFixedString" -> R("ReadFixedString", <<w.a[2]>>, "", VBytes(StripRight(EncodeText(v.v, "utf-8"), 0)))
         [] w.op = "WriteBytes" -> R("SafeReadBytes", <<VInt(ZFromInt(Len(out.bytes)))>>, "", VBytes(out.bytes))
         [] w.op = "WriteUInt160" -> R("ReadUInt160", << >>, "", v) [] w.op = "WriteUInt256" -> R("ReadUInt256", << >>, "", v)
         [] w.op = "WriteSerializableArray" ->
              IF v.k = "nils" THEN R("ReadSerializableArray", <<VInt(v.v)>>, w.x, v)
              ELSE R("ReadSerializableArray", <<VInt(ZFromInt(Len(v.c)))>>, IF w.x = "" THEN "UInt160" ELSE w.x, VList(v.c))
         [] w.op = "WriteHashes" -> R("ReadHashes", << >>, "", VList([i \in 1..Len(v.c) |-> VStr(lower(v.c[i].v))]))
Accepted(w) == WriteSpec(w.op, w.a, w.x).o = "put"

VARIABLES st, hist
Init == st = [i \in 1..Streams |-> Empty] /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E w \in Alphabet, i \in 1..Streams :
             LET out == WriteSpec(w.op, w.a, w.x)
             IN /\ st' = IF out.o = "put" THEN [st EXCEPT ![i] = Put(st[i], out.bytes)] ELSE st
                /\ hist' = Append(hist, [w EXCEPT !.s = i])

Writes(i) == SelectSeq(hist, LAMBDA w : w.s = i /\ Accepted(w))
RECURSIVE Fold(_, _)
Fold(s, ws) == IF ws = << >> THEN s.p = Len(s.b)
               ELSE LET r == ReadOf(ws[1])
                        out == ReadSpec(r.op, r.a, r.x, s)
                    IN /\ out.o \in {"val", "list"}
                       /\ SameValue(out.val, r.val)
                       /\ Fold([s EXCEPT !.p = out.p], Tail(ws))
ReadBack == \A i \in 1..Streams : Fold([st[i] EXCEPT !.p = 0], Writes(i))

BestEffort == {"ReadBytes", "ReadVarBytes", "ReadFixedString", "ReadByte", "ReadVarInt", "ReadSerializableArray"}
CutAt(b, n) == Stream(Take(b, n), 0)
Truncation ==
    (Cuts /\ Len(hist) = 1 /\ Accepted(hist[1])) =>
      LET b == st[hist[1].s].b
          r == ReadOf(hist[1])
      IN \A n \in 0..(Len(b) - 1) :
           LET out == ReadSpec(r.op, r.a, r.x, CutAt(b, n))
           IN IF r.op \in BestEffort
              THEN out.o = "fail" \/ (out.p <= n /\ (out.val.k = "bytes" => Len(out.val.v) <= n))
              ELSE out.o = "fail" \/ (n = 0 /\ r.op \in {"ReadVarString", "ReadHashes"})
Limits ==
    (Len(hist) = 1 /\ Accepted(hist[1]) /\ hist[1].op \in {"WriteVarInt", "WriteVarBytes", "WriteVarString"}) =>
      LET r == ReadOf(hist[1])
      IN ZLt(ZZero, r.a[1].v) =>
           LET out == ReadSpec(r.op, <<VInt(ZSub(r.a[1].v, One))>>, r.x, CutAt(st[hist[1].s].b, Len(st[hist[1].s].b)))
           IN out.o = "fail" /\ out.p <= 9

\* programs for the real code
Load(bs) == [op |-> "Load", s |-> 1, a |-> [i \in 1..Len(bs) |-> VBytes(bs[i])], x |-> ""]
Seek(i) == [op |-> "Seek", s |-> i, a |-> <<VInt(ZZero)>>, x |-> ""]
AsStep(r) == [op |-> r.op, s |-> r.s, a |-> r.a, x |-> r.x]
ReadsOf(i) == LET ws == Writes(i) IN [k \in 1..Len(ws) |-> AsStep(ReadOf(ws[k]))]
Program == <<Load([i \in 1..Streams |-> << >>])>> \o hist
           \o Flat([i \in 1..Streams |-> <<Seek(i)>> \o ReadsOf(i)])
CutSteps == LET b == st[hist[1].s].b
                n == Len(b)
                r == [ReadOf(hist[1]) EXCEPT !.s = 1]
                at == SelectSeq([k \in 1..n + 1 |-> k - 1], LAMBDA c : c <= 12 \/ c >= n - 3 \/ c % 16 = 0)
                low == [r EXCEPT !.a = <<VInt(ZSub(r.a[1].v, One))>>]
            IN Flat([k \in 1..Len(at) |-> <<Load(<<Take(b, at[k])>>), AsStep(r)>>])
               \o (IF r.a # << >> /\ r.a[1].k = "int" /\ ~ZIsZero(r.a[1].v) THEN <<Load(<<b>>), AsStep(low)>> ELSE << >>)
Emit == /\ (Len(hist) = Depth /\ TLCGet("distinct") % EmitEvery = 0) => PrintT("PROG " \o ToJson(Program))
        /\ (Cuts /\ Len(hist) = 1 /\ Accepted(hist[1])) => PrintT("PROG " \o ToJson(CutSteps))
=============================================================================
