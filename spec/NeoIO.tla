------------------------------- MODULE NeoIO -------------------------------
(***************************************************************************)
(* The binary streams of neo-python-core: BinaryWriter and BinaryReader    *)
(* (neocore/IO) over in-memory streams.                                    *)
(*                                                                         *)
(* State: a sequence of streams, each [b |-> bytes, p |-> cursor].  One    *)
(* operation of a writer or reader is one atomic transition.  WriteSpec    *)
(* says what a write appends (or that it is refused), ReadSpec what a read *)
(* returns and consumes (or that it fails).  MCIO.tla explores the machine *)
(* for small constants; TraceIO.tla judges recorded executions with the    *)
(* very same operators.                                                    *)
(***************************************************************************)
EXTENDS Big, Bytes, Float

Stream(b, p) == [b |-> b, p |-> p]
Empty == Stream(<< >>, 0)
Avail(s) == Max(0, Len(s.b) - s.p)
At(s, n) == SubSeq(s.b, s.p + 1, s.p + n)            \* the next n bytes

\* writing bytes at the cursor
Put(s, bytes) == [b |-> Take(s.b, s.p) \o bytes \o Drop(s.b, s.p + Len(bytes)),
                  p |-> s.p + Len(bytes)]

-----------------------------------------------------------------------------
\* Outcomes of writes: "put" appends bytes (cnt = number to be reported, -1
\* when the operation documents none), "refuse" leaves everything untouched,
\* "free" is outside the specification.
PutOut(bytes, cnt) == [o |-> "put", bytes |-> bytes, cnt |-> cnt]
PutCounted(bytes) == PutOut(bytes, Len(bytes))
Refuse == [o |-> "refuse", bytes |-> << >>, cnt |-> -1]
FreeOut == [o |-> "free", bytes |-> << >>, cnt |-> -1]

Pow2(k) == NShl(NOne, k)
\* two's complement, little-endian, w bytes
FitsInt(z, w, signed) ==
    IF signed THEN (IF ZNeg1(z) THEN NLe(ZMag(z), Pow2(8 * w - 1)) ELSE NLt(ZMag(z), Pow2(8 * w - 1)))
    ELSE ~ZNeg1(z) /\ NLt(ZMag(z), Pow2(8 * w))
IntBytes(z, w) == PadTo(IF ZNeg1(z) THEN NSub(Pow2(8 * w), ZMag(z)) ELSE ZMag(z), w)
IntOfBytes(b, signed) ==
    LET n == NNorm(b)
    IN IF signed /\ b # << >> /\ b[Len(b)] >= 128 THEN ZMk(1, NSub(Pow2(8 * Len(b)), n)) ELSE ZNat(n)
Order(b, big) == IF big THEN Rev(b) ELSE b

FixedInts == [Int8 |-> <<1, TRUE>>, UInt8 |-> <<1, FALSE>>, Int16 |-> <<2, TRUE>>, UInt16 |-> <<2, FALSE>>,
              Int32 |-> <<4, TRUE>>, UInt32 |-> <<4, FALSE>>, Int64 |-> <<8, TRUE>>, UInt64 |-> <<8, FALSE>>]

WriteFixedInt(v, w, signed, big) ==
    IF IsIntLike(v) THEN (IF FitsInt(v.v, w, signed) THEN PutCounted(Order(IntBytes(v.v, w), big)) ELSE Refuse)
    ELSE Refuse

\* a number given to a floating-point write: integers are rounded to a double first
FloatArg(v) == IF v.k = "float" THEN v.v ELSE FRound(F64, FOfInt(v.v))
WriteFloating(fmt, v, big) ==
    IF ~(v.k = "float" \/ IsIntLike(v)) THEN Refuse
    ELSE IF IsIntLike(v) /\ Overflows(F64, FOfInt(v.v)) THEN Refuse
    ELSE LET f == FloatArg(v)
         IN IF FClass(f) = 2 THEN FreeOut
            ELSE IF Overflows(fmt, f) THEN Refuse
            ELSE PutCounted(Order(FEncode(fmt, f), big))

\* shortest form of a variable-length integer
VarIntBytes(n, big) ==
    IF NLt(n, <<253>>) THEN PadTo(n, 1)
    ELSE IF NLt(n, Pow2(16)) THEN <<253>> \o Order(PadTo(n, 2), big)
    ELSE IF NLt(n, Pow2(32)) THEN <<254>> \o Order(PadTo(n, 4), big)
    ELSE <<255>> \o Order(PadTo(n, 8), big)
VarLen(n) == VarIntBytes(NFromInt(n), FALSE)

WriteVar(v, big) ==
    IF ~IsIntLike(v) \/ ZNeg1(v.v) \/ ~NLt(ZMag(v.v), Pow2(64)) THEN Refuse
    ELSE PutCounted(VarIntBytes(ZMag(v.v), big))

IsUIntOf(v, n) == v.k = "uint" /\ v.v[1] = n         \* v = <<class size>> \o data
UIntData(v) == Tail(v.v)
VUInt(n, data) == Val("uint", <<n>> \o data, << >>)

\* serializable items the collections are made of: hash values, records of a
\* 16-bit number and a byte string, bags of such records, and objects without
\* content, a list of n of which is written "nils" n (harness/neoitems.py)
RECURSIVE ItemBytes(_)
ItemBytes(x) ==
    IF x.k = "uint" THEN UIntData(x)
    ELSE IF x.k = "bag" THEN VarLen(Len(x.c)) \o Flat([i \in 1..Len(x.c) |-> ItemBytes(x.c[i])])
    ELSE IntBytes(x.c[1].v, 2) \o VarLen(Len(x.c[2].v)) \o x.c[2].v
ItemsBytes(c) == Flat([i \in 1..Len(c) |-> ItemBytes(c[i])])
RECURSIVE IsItem(_)
IsItem(x) == x.k = "uint" \/ (x.k = "bag" /\ \A i \in 1..Len(x.c) : x.c[i].k = "item" /\ IsItem(x.c[i])) \/ (x.k = "item" /\ Len(x.c) = 2 /\ x.c[1].k = "int" /\ FitsInt(x.c[1].v, 2, FALSE)
                                /\ x.c[2].k = "bytes")

\* hash lists: items are hexadecimal text (or its bytes), stored reversed
IsHashText(x, n) == x.k \in {"str", "bytes"} /\ Len(x.v) = n /\ IsHex(x.v)
HashesBytes(c) == Flat([i \in 1..Len(c) |-> Rev(HexDecode(c[i].v))])

IsBig(a) == a # << >> /\ a[1].k = "str" /\ a[1].v = <<62>>          \* endian argument ">"
Arg(a, i) == IF Len(a) >= i THEN a[i] ELSE VNone

\* a: the arguments; x: the name of the text encoding, for WriteVarString
WriteSpec(op, a, x) ==
    LET v == Arg(a, 1)
        big == IsBig(Drop(a, 1))
    IN CASE op \in {"WriteInt8", "WriteInt16", "WriteInt32", "WriteInt64"} ->
              WriteFixedInt(v, CASE op = "WriteInt8" -> 1 [] op = "WriteInt16" -> 2 [] op = "WriteInt32" -> 4
                                 [] OTHER -> 8, TRUE, big)
         [] op \in {"WriteUInt8", "WriteUInt16", "WriteUInt32", "WriteUInt64"} ->
              WriteFixedInt(v, CASE op = "WriteUInt8" -> 1 [] op = "WriteUInt16" -> 2 [] op = "WriteUInt32" -> 4
                                 [] OTHER -> 8, FALSE, big)
         [] op = "WriteFloat" -> WriteFloating(F32, v, big)
         [] op = "WriteDouble" -> WriteFloating(F64, v, big)
         [] op = "WriteBool" -> IF IsIntLike(v) THEN PutCounted(IF ZIsZero(v.v) THEN <<0>> ELSE <<1>>) ELSE FreeOut
         [] op = "WriteChar" -> IF v.k = "bytes" /\ Len(v.v) = 1 THEN PutCounted(v.v) ELSE Refuse
         [] op = "WriteByte" ->
              IF v.k = "bytes" THEN PutOut(v.v, -1)
              ELSE IF v.k = "str" THEN (IF Encodable(v.v, "utf-8") THEN PutOut(EncodeText(v.v, "utf-8"), -1) ELSE Refuse)
              ELSE IF IsIntLike(v) THEN (IF FitsInt(v.v, 1, FALSE) THEN PutOut(IntBytes(v.v, 1), -1) ELSE Refuse)
              ELSE FreeOut
         [] op = "WriteFixed8" ->
              IF v.k # "fixed8" \/ v.c[1].k # "int" THEN FreeOut
              ELSE IF FitsInt(v.c[1].v, 8, TRUE) THEN PutCounted(IntBytes(v.c[1].v, 8)) ELSE Refuse
         [] op = "WriteVarInt" -> WriteVar(v, big)
         [] op = "WriteVarBytes" ->
              IF v.k = "bytes" THEN PutCounted(VarIntBytes(NFromInt(Len(v.v)), big) \o v.v) ELSE FreeOut
         [] op = "WriteVarString" ->
              IF v.k = "bytes" THEN PutOut(VarLen(Len(v.v)) \o v.v, -1)
              ELSE IF v.k # "str" THEN FreeOut
              ELSE IF ~Encodable(v.v, x) THEN Refuse
              ELSE LET e == EncodeText(v.v, x) IN PutOut(VarLen(Len(e)) \o e, -1)
         [] op = "WriteFixedString" ->
              LET n == ZToInt(Arg(a, 2).v)
                  e == EncodeText(v.v, "utf-8")
              IN IF v.k # "str" THEN FreeOut
                 ELSE IF ~Encodable(v.v, "utf-8") \/ Len(e) > n THEN Refuse
                 ELSE PutOut(e \o Zeros(n - Len(e)), -1)
         [] op = "WriteBytes" ->
              LET verbatim == Len(a) >= 2 /\ a[2].k = "bool" /\ ZIsZero(a[2].v)
              IN IF v.k = "bytes" THEN PutCounted(IF ~verbatim /\ IsHex(v.v) THEN HexDecode(v.v) ELSE v.v)
                 ELSE IF v.k = "str" THEN (IF ~verbatim /\ IsHex(v.v) THEN PutCounted(HexDecode(v.v)) ELSE Refuse)
                 ELSE Refuse
         [] op = "WriteUInt160" -> IF IsUIntOf(v, 20) THEN PutOut(UIntData(v), -1) ELSE Refuse
         [] op = "WriteUInt256" -> IF IsUIntOf(v, 32) THEN PutOut(UIntData(v), -1) ELSE Refuse
         [] op = "WriteSerializableArray" ->
              IF v.k = "none" THEN PutOut(<<0>>, -1)
              ELSE IF v.k = "nils" THEN PutOut(VarIntBytes(ZMag(v.v), FALSE), -1)
              ELSE IF v.k = "list" /\ \A i \in 1..Len(v.c) : IsItem(v.c[i])
                   THEN PutOut(VarLen(Len(v.c)) \o ItemsBytes(v.c), -1)
              ELSE FreeOut
         [] op = "WriteHashes" ->
              IF v.k = "list" /\ \A i \in 1..Len(v.c) : IsHashText(v.c[i], 64)
              THEN PutOut(VarLen(Len(v.c)) \o HashesBytes(v.c), -1) ELSE FreeOut
         [] op = "Write2000256List" ->
              IF v.k = "list" /\ \A i \in 1..Len(v.c) : IsHashText(v.c[i], 64)
              THEN PutOut(HashesBytes(v.c), -1) ELSE FreeOut
         [] OTHER -> FreeOut

-----------------------------------------------------------------------------
\* Outcomes of reads: "val" returns val and leaves the cursor at p; "fail"
\* reports an error, with the cursor at most at p; "list" (serializable
\* arrays) returns exactly val with the cursor at or after p.
ValOut(v, p) == [o |-> "val", val |-> v, p |-> p]
FailOut(p) == [o |-> "fail", val |-> VNone, p |-> p]
\* a best-effort read may also report an error (length beyond what the platform can ask for)
EitherOut(out) == [out EXCEPT !.o = "either"]
FreeRead == [o |-> "free", val |-> VNone, p |-> 0]
ListOut(v, p) == [o |-> "list", val |-> v, p |-> p]
\* a list of lists damaged inside an element: at least the elements before it
PrefixOut(v, p) == [o |-> "prefix", val |-> v, p |-> p]

\* a complete value of n bytes, or failure
Exactly(s, n, v(_)) == IF Avail(s) >= n THEN ValOut(v(At(s, n)), s.p + n) ELSE FailOut(Len(s.b))
\* at most n bytes
UpTo(s, n) == LET k == Min(n, Avail(s)) IN ValOut(VBytes(At(s, k)), s.p + k)

\* variable-length integer at the cursor: its value and the cursor after it.
\* A missing first byte counts as zero (ReadByte is best-effort).
VarIntOf(s) ==
    IF Avail(s) = 0 THEN [ok |-> TRUE, n |-> << >>, p |-> s.p]
    ELSE LET fb == s.b[s.p + 1]
             w == CASE fb = 253 -> 2 [] fb = 254 -> 4 [] fb = 255 -> 8 [] OTHER -> 0
         IN IF w = 0 THEN [ok |-> TRUE, n |-> NFromInt(fb), p |-> s.p + 1]
            ELSE IF Avail(s) < 1 + w THEN [ok |-> FALSE, n |-> << >>, p |-> Len(s.b)]
            ELSE [ok |-> TRUE, n |-> NNorm(SubSeq(s.b, s.p + 2, s.p + 1 + w)), p |-> s.p + 1 + w]
DefaultLimit == NSub(Pow2(63), NOne)
Limit(x) == IF IsIntLike(x) THEN x.v ELSE ZNat(DefaultLimit)
WithCount(s, limit, f(_, _)) ==        \* f(count, stream after the count)
    LET c == VarIntOf(s)
    IN IF ~c.ok \/ ZLt(limit, ZNat(c.n)) THEN FailOut(c.p)
       ELSE f(c.n, [s EXCEPT !.p = c.p])

\* number of bytes to take, for a count that may exceed TLC's integers
Clip(s, n) == IF NLe(n, NFromInt(Avail(s))) THEN NToInt(n) ELSE Avail(s) + 1

RECURSIVE ReadItems(_, _, _, _)
ReadItems(s, cls, n, got) ==       \* decodable prefix of n items (n possibly huge)
    IF cls = "Nil" THEN ListOut(IF n = << >> THEN VList(<< >>) ELSE Val("nils", ZNat(n), << >>), s.p)
    ELSE IF n = << >> THEN ListOut(VList(got), s.p)
    ELSE IF cls = "Bag"
    THEN LET c == VarIntOf(s)
             inner == ReadItems([s EXCEPT !.p = c.p], "Item", c.n, << >>)
         IN IF ~c.ok \/ NFromInt(Len(inner.val.c)) # c.n THEN PrefixOut(VList(got), s.p)
            ELSE ReadItems([s EXCEPT !.p = inner.p], cls, NSub(n, NOne), Append(got, Val("bag", << >>, inner.val.c)))
    ELSE LET w == CASE cls = "UInt160" -> 20 [] cls = "UInt256" -> 32 [] OTHER -> 0
         IN IF w > 0
            THEN IF Avail(s) < w THEN ListOut(VList(got), s.p)
                 ELSE ReadItems([s EXCEPT !.p = s.p + w], cls, NSub(n, NOne),
                                Append(got, VUInt(w, At(s, w))))
            ELSE IF Avail(s) < 2 THEN ListOut(VList(got), s.p)
                 ELSE LET c == VarIntOf([s EXCEPT !.p = s.p + 2])
                          k == Clip([s EXCEPT !.p = c.p], c.n)
                      IN IF ~c.ok \/ c.p + k > Len(s.b) THEN ListOut(VList(got), s.p)
                         ELSE ReadItems([s EXCEPT !.p = c.p + k], cls, NSub(n, NOne),
                                Append(got, Val("item", << >>,
                                    <<VInt(IntOfBytes(At(s, 2), FALSE)), VBytes(SubSeq(s.b, c.p + 1, c.p + k))>>)))

HashText(b) == HexEncode(Rev(b))
ReadHashList(s, n) ==
    IF ~NLe(n, NFromInt(Avail(s) \div 32)) THEN FailOut(Len(s.b))
    ELSE LET k == NToInt(n)
         IN ValOut(VList([i \in 1..k |-> VStr(HashText(SubSeq(s.b, s.p + 32 * i - 31, s.p + 32 * i)))]), s.p + 32 * k)

\* the 2000-entry block: 32 bytes per entry, as the writer stores it
Read2000(s) == IF Avail(s) < 64000 THEN FailOut(Len(s.b))
               ELSE ValOut(VList([i \in 1..2000 |-> VBytes(HashText(SubSeq(s.b, s.p + 32 * i - 31, s.p + 32 * i)))]),
                           s.p + 64000)
\* deviation of the code (known finding list2000): it reads 64 hexadecimal digits per entry
Read2000Hex(s) == ValOut(VList([i \in 1..2000 |->
                       VBytes(HashText(HexDecode(SubSeq(s.b, s.p + 64 * i - 63, s.p + 64 * i))))]), s.p + 128000)
Is2000Hex(s) == Avail(s) >= 128000 /\ IsHex(At(s, 128000))

\* a: the arguments; x: the class of the items, for ReadSerializableArray
ReadSpec(op, a, x, s) ==
    LET big == IsBig(a)
        ReadIntegral(w, signed) == Exactly(s, w, LAMBDA b : VInt(IntOfBytes(Order(b, big), signed)))
    IN CASE op = "ReadInt8" -> ReadIntegral(1, TRUE)
         [] op = "ReadUInt8" -> ReadIntegral(1, FALSE)
         [] op = "ReadInt16" -> ReadIntegral(2, TRUE)
         [] op = "ReadUInt16" -> ReadIntegral(2, FALSE)
         [] op = "ReadInt32" -> ReadIntegral(4, TRUE)
         [] op = "ReadUInt32" -> ReadIntegral(4, FALSE)
         [] op = "ReadInt64" -> ReadIntegral(8, TRUE)
         [] op = "ReadUInt64" -> ReadIntegral(8, FALSE)
         [] op = "ReadFloat" -> Exactly(s, 4, LAMBDA b : Val("float", FDecode(F32, Order(b, big)), << >>))
         [] op = "ReadDouble" -> Exactly(s, 8, LAMBDA b : Val("float", FDecode(F64, Order(b, big)), << >>))
         [] op = "ReadBool" -> Exactly(s, 1, LAMBDA b : VBool(b[1] # 0))
         [] op = "ReadChar" -> Exactly(s, 1, VBytes)
         [] op = "ReadByte" ->
              LET raw == a # << >> /\ a[1].k = "bool" /\ ZIsZero(a[1].v)
              IN IF raw THEN UpTo(s, 1)
                 ELSE IF Avail(s) = 0 THEN ValOut(VInt(ZZero), s.p)
                 ELSE ValOut(VInt(ZFromInt(s.b[s.p + 1])), s.p + 1)
         [] op = "ReadFixed8" -> Exactly(s, 8, LAMBDA b : Val("fixed8", << >>, <<VInt(IntOfBytes(b, TRUE))>>))
         [] op = "ReadUInt160" -> Exactly(s, 20, LAMBDA b : VUInt(20, b))
         [] op = "ReadUInt256" -> Exactly(s, 32, LAMBDA b : VUInt(32, b))
         [] op = "ReadBytes" -> UpTo(s, Clip(s, ZMag(a[1].v)))
         [] op = "SafeReadBytes" -> Exactly(s, Clip(s, ZMag(a[1].v)), VBytes)
         [] op = "ReadVarInt" ->
              WithCount(s, Limit(Arg(a, 1)), LAMBDA n, t : ValOut(VInt(ZNat(n)), t.p))
         [] op = "ReadVarBytes" ->
              WithCount(s, Limit(Arg(a, 1)), LAMBDA n, t : IF NLt(DefaultLimit, n) THEN EitherOut(UpTo(t, Clip(t, n))) ELSE UpTo(t, Clip(t, n)))
         [] op = "ReadVarString" ->
              WithCount(s, Limit(Arg(a, 1)), LAMBDA n, t : Exactly(t, Clip(t, n), VBytes))
         [] op = "ReadString" ->
              IF Avail(s) = 0 THEN FailOut(Len(s.b))
              ELSE Exactly([s EXCEPT !.p = s.p + 1], s.b[s.p + 1], VBytes)
         [] op = "ReadFixedString" ->
              LET k == Min(Clip(s, ZMag(a[1].v)), Avail(s)) IN ValOut(VBytes(StripRight(At(s, k), 0)), s.p + k)
         [] op = "ReadSerializableArray" ->
              WithCount(s, Limit(Arg(a, 1)), LAMBDA n, t : ReadItems(t, x, n, << >>))
         [] op = "ReadHashes" -> WithCount(s, ZNat(DefaultLimit), LAMBDA n, t : ReadHashList(t, n))
         [] op = "Read2000256List" -> IF Is2000Hex(s) THEN Read2000Hex(s) ELSE Read2000(s)
         [] OTHER -> FreeRead
-----------------------------------------------------------------------------
\* Verdicts on recorded operations.  st: the streams before, ev: the event
\* (operation ev.op on stream ev.s with arguments ev.a, ev.x; result ev.r and
\* all streams afterwards ev.st).  "" accepts; otherwise the failing clause.

IsWrite(op) == op \in {"WriteInt8", "WriteUInt8", "WriteInt16", "WriteUInt16", "WriteInt32", "WriteUInt32",
    "WriteInt64", "WriteUInt64", "WriteFloat", "WriteDouble", "WriteBool", "WriteChar", "WriteByte", "WriteFixed8",
    "WriteVarInt", "WriteVarBytes", "WriteVarString", "WriteFixedString", "WriteBytes", "WriteUInt160",
    "WriteUInt256", "WriteSerializableArray", "WriteHashes", "Write2000256List"}

\* known finding uint-hex: a hash value whose bytes are all ASCII hexadecimal
\* digits is written as the bytes those digits denote
HexQuirk(b) == IF IsHex(b) THEN HexDecode(b) ELSE b
QuirkItem(v) == IF v.k = "uint" THEN HexQuirk(UIntData(v)) ELSE ItemBytes(v)
QuirkBytes(op, a) ==
    IF op \in {"WriteUInt160", "WriteUInt256"} THEN HexQuirk(UIntData(a[1]))
    ELSE IF op = "WriteSerializableArray" /\ a[1].k = "list"
         THEN VarLen(Len(a[1].c)) \o Flat([i \in 1..Len(a[1].c) |-> QuirkItem(a[1].c[i])])
    ELSE << >>
QuirkOp(op) == op \in {"WriteUInt160", "WriteUInt256", "WriteSerializableArray"}

OthersUntouched(st, ev) == Len(ev.st) = Len(st) /\ \A i \in 1..Len(st) : i # ev.s => ev.st[i] = st[i]

JudgeWrite(st, ev) ==
    LET s == st[ev.s]
        t == ev.st[ev.s]
        out == WriteSpec(ev.op, ev.a, ev.x)
    IN CASE out.o = "free" -> ""
         [] out.o = "refuse" ->
              IF ~IsErr(ev.r) THEN "value not refused"
              ELSE IF t # s THEN "refused write touched the stream" ELSE ""
         [] OTHER ->
              IF IsErr(ev.r) THEN "valid write refused"
              ELSE IF t # Put(s, out.bytes)
                   THEN IF QuirkOp(ev.op) /\ t = Put(s, QuirkBytes(ev.op, ev.a)) THEN "known:uint-hex"
                        ELSE "wrong bytes written"
              ELSE IF out.cnt >= 0 /\ ~(ev.r.k = "int" /\ ev.r.v = ZFromInt(out.cnt)) THEN "wrong byte count reported"
              ELSE ""

SameValue(r, v) == r.k = v.k /\ r.v = v.v /\ (r.k = "float" \/ r.c = v.c)

\* known finding readhashes: a hash list that ends early is returned with
\* short or empty entries
ShortHashes(s) ==
    LET c == VarIntOf(s)
        q(i) == SubSeq(s.b, c.p + 32 * i - 31, Min(Len(s.b), c.p + 32 * i))
    IN VList([i \in 1..NToInt(c.n) |-> VStr(HashText(q(i)))])
ShortHashesKnown(s, r) ==
    LET c == VarIntOf(s)
    IN /\ c.ok /\ NLe(c.n, NFromInt(100000))
       /\ NToInt(c.n) * 32 > Len(s.b) - c.p
       /\ r = ShortHashes(s)

JudgeRead(st, ev) ==
    LET s == st[ev.s]
        t == ev.st[ev.s]
        out == ReadSpec(ev.op, ev.a, ev.x, s)
    IN IF t.b # s.b THEN "reading changed the stream"
       ELSE CASE out.o = "free" -> ""
         [] out.o = "fail" ->
              IF ~IsErr(ev.r)
              THEN IF ev.op = "ReadHashes" /\ ShortHashesKnown(s, ev.r) THEN "known:readhashes"
                   ELSE "made-up value from truncated or oversized input"
              ELSE IF t.p < s.p \/ t.p > out.p THEN "consumed more than allowed before failing"
              ELSE ""
         [] out.o = "either" /\ IsErr(ev.r) -> ""
         [] out.o = "prefix" ->
              IF ~(ev.r.k = "list" /\ Len(ev.r.c) >= Len(out.val.c) /\ \A i \in 1..Len(out.val.c) : ev.r.c[i] = out.val.c[i])
              THEN "wrong items read before the damage"
              ELSE IF t.p < out.p \/ t.p > Len(s.b) THEN "wrong cursor after items"
              ELSE ""
         [] out.o = "list" ->
              IF IsErr(ev.r) THEN "complete items refused"
              ELSE IF ~SameValue(ev.r, out.val) THEN "wrong items read"
              ELSE IF t.p < out.p \/ t.p > Len(s.b) THEN "wrong cursor after items"
              ELSE ""
         [] OTHER ->
              IF IsErr(ev.r)
              THEN IF ev.op = "Read2000256List" /\ ~Is2000Hex(s) THEN "known:list2000" ELSE "valid read refused"
              ELSE IF ~SameValue(ev.r, out.val) THEN "wrong value read"
              ELSE IF t.p # out.p THEN "wrong number of bytes consumed"
              ELSE ""

\* <<verdict, streams to continue with>>
Judge(st, ev) ==
    IF ev.op = "Load" THEN <<"", ev.st>>
    ELSE IF ~OthersUntouched(st, ev) THEN <<"another stream changed", ev.st>>
    ELSE IF ev.r.k = "timeout"
         THEN <<IF ev.op = "ReadHashes" /\ NLt(NFromInt(100000), VarIntOf(st[ev.s]).n) THEN "known:readhashes"
                ELSE "operation does not end", ev.st>>
    ELSE IF IsWrite(ev.op) THEN <<JudgeWrite(st, ev), ev.st>>
    ELSE <<JudgeRead(st, ev), ev.st>>
=============================================================================
