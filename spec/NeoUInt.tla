------------------------------ MODULE NeoUInt ------------------------------
(***************************************************************************)
(* Hash values (UIntBase, UInt160, UInt256) as a heap machine.             *)
(*                                                                         *)
(* State: objs, the hash values alive, each [t |-> class tag, d |-> bytes] *)
(* (class tag 20, 32 or 0 for the base class), and bufs, the byte buffers  *)
(* of the caller, which values are built from and which change later.      *)
(* Every public operation is one transition; operations other than New,    *)
(* Parse, Read (which create a value) and Deserialize (which replaces the  *)
(* bytes of one value, or fails) leave objs unchanged.                     *)
(***************************************************************************)
EXTENDS Big, Bytes, FiniteSets

Obj(t, d) == [t |-> t, d |-> d]
UState(objs, bufs) == [objs |-> objs, bufs |-> bufs]
ClassTag(cls) == CASE cls = "UInt160" -> 20 [] cls = "UInt256" -> 32 [] OTHER -> 0

HashCode(d) == NNorm(Take(d, Min(4, Len(d))))
Text(d) == HexEncode(Rev(d))
RawText(d) == HexEncode(d)
\* order of the little-endian numbers
Cmp(d, e) == NCmp(NNorm(d), NNorm(e))

VUIntOf(o) == Val("uint", <<o.t>> \o o.d, << >>)
\* references to objects and buffers among the arguments
IsObj(v) == v.k = "obj"
Ref(v) == v.v[1]
IsBuf(v) == v.k = "buf"

\* outcomes: r the result ("any" is not specified), objs and bufs afterwards
Out(r, st) == [r |-> r, st |-> st]
AnyVal == Val("any", << >>, << >>)
AddObj(st, o) == [st EXCEPT !.objs = Append(st.objs, o)]

\* the text forms ParseString accepts
ParseBody(s) == IF StartsWith(s, <<48, 120>>) THEN Drop(s, 2) ELSE s
ParseOk(s, n) == LET b == ParseBody(s) IN Len(b) = 2 * n /\ IsHex(b)
ParseData(s) == Rev(HexDecode(ParseBody(s)))

\* building: size n from one optional argument
BuildArg(st, a) == IF IsBuf(a) THEN VBytes(st.bufs[Ref(a)]) ELSE a
Build(st, tag, n, a) ==
    IF a = << >> \/ a[1].k = "none" THEN Out(VNone, AddObj(st, Obj(tag, Zeros(n))))
    ELSE LET v == BuildArg(st, a[1])
         IN IF v.k = "bytes" /\ Len(v.v) = n THEN Out(VNone, AddObj(st, Obj(tag, v.v)))
            ELSE Out(VErr, st)

RECURSIVE InsertSorted(_, _)
InsertSorted(s, d) == IF s = << >> THEN <<d>>
                      ELSE IF Cmp(s[1], d) = 1 THEN <<d>> \o s ELSE <<s[1]>> \o InsertSorted(Tail(s), d)
RECURSIVE Sorted(_)
Sorted(s) == IF s = << >> THEN << >> ELSE InsertSorted(Sorted(Tail(s)), s[1])
AllSame(s) == \A i \in 1..Len(s) : Len(s[i]) = Len(s[1])

CmpResult(op, c) ==
    CASE op = "Lt" -> VBool(c = -1) [] op = "Le" -> VBool(c # 1)
      [] op = "Gt" -> VBool(c = 1) [] op = "Ge" -> VBool(c # -1)
      [] OTHER -> VInt(ZFromInt(c))

Data(st, refs) == [i \in 1..Len(refs) |-> st.objs[Ref(refs[i])].d]

\* t: the value operated on (its index), x: class name, a: arguments
USpec(st, op, t, x, a) ==
    LET o == st.objs[t]
    IN CASE op = "Buf" -> Out(VNone, [st EXCEPT !.bufs = Append(st.bufs, a[1].v)])
         [] op = "SetBuf" -> Out(VNone, [st EXCEPT !.bufs[Ref(a[1])] = a[2].v])
         [] op = "New" ->
              IF x = "UIntBase" THEN Build(st, 0, ZToInt(a[1].v), Tail(a)) ELSE Build(st, ClassTag(x), ClassTag(x), a)
         [] op = "Parse" ->
              IF a[1].k = "str" /\ ParseOk(a[1].v, ClassTag(x))
              THEN Out(VNone, AddObj(st, Obj(ClassTag(x), ParseData(a[1].v)))) ELSE Out(VErr, st)
         [] op = "ReadNew" ->       \* typed read from a stream
              IF Len(a[1].v) >= ClassTag(x) THEN Out(VInt(ZFromInt(ClassTag(x))), AddObj(st, Obj(ClassTag(x), Take(a[1].v, ClassTag(x)))))
              ELSE Out(VErr, st)
         [] op = "Deserialize" ->   \* a[1]: the bytes from the cursor on; reports how many were consumed
              IF Len(a[1].v) >= Len(o.d)
              THEN Out(VInt(ZFromInt(Len(o.d))), [st EXCEPT !.objs[t].d = Take(a[1].v, Len(o.d))])
              ELSE Out(VErr, st)
         [] op \in {"Serialize", "Write"} -> Out(VBytes(o.d), st)
         [] op = "TypedWrite" ->    \* x: the class the stream operation expects
              IF IsObj(a[1]) /\ st.objs[Ref(a[1])].t = ClassTag(x) THEN Out(VBytes(st.objs[Ref(a[1])].d), st)
              ELSE Out(VErr, st)
         [] op \in {"ToString", "str"} -> Out(VStr(Text(o.d)), st)
         [] op = "ToString2" -> Out(VStr(RawText(o.d)), st)
         [] op = "To0xString" -> Out(VStr(<<48, 120>> \o Text(o.d)), st)
         [] op = "ToBytes" -> Out(VBytes(Text(o.d)), st)
         [] op \in {"ToArray", "ScribbleArray"} -> Out(VBytes(o.d), st)
         [] op = "Size" -> Out(VInt(ZFromInt(Len(o.d))), st)
         [] op \in {"hash", "GetHashCode"} -> Out(VInt(ZNat(HashCode(o.d))), st)
         [] op \in {"Eq", "REq"} -> Out(VBool(IsObj(a[1]) /\ st.objs[Ref(a[1])].d = o.d), st)
         [] op \in {"Ne", "RNe"} -> Out(VBool(~(IsObj(a[1]) /\ st.objs[Ref(a[1])].d = o.d)), st)
         [] op \in {"Lt", "Le", "Gt", "Ge", "CompareTo"} ->
              IF IsObj(a[1]) /\ Len(st.objs[Ref(a[1])].d) = Len(o.d)
              THEN Out(CmpResult(op, Cmp(o.d, st.objs[Ref(a[1])].d)), st) ELSE Out(VErr, st)
         [] op = "Sort" ->
              LET ds == Data(st, a)
              IN IF AllSame(ds) THEN Out(VList([i \in 1..Len(a) |-> VBytes(Sorted(ds)[i])]), st) ELSE Out(AnyVal, st)
         [] op = "SetSize" -> Out(VInt(ZFromInt(Cardinality({st.objs[Ref(a[i])].d : i \in 1..Len(a)}))), st)
         [] op = "Lookup" ->        \* position (from 0) under which an equal value was stored last in a dictionary
              LET hits == {i \in 1..Len(a) : st.objs[Ref(a[i])].d = o.d}
              IN Out(IF hits = {} THEN VNone ELSE VInt(ZFromInt((CHOOSE i \in hits : \A j \in hits : j <= i) - 1)), st)
         \* the bytes of the others while those of this value are altered in place
         [] op = "Alone" -> Out(VList([i \in 1..(Len(st.objs) - 1) |-> VBytes(st.objs[IF i < t THEN i ELSE i + 1].d)]), st)
         \* the value put to use elsewhere: as a script hash, as a leaf, in a list; judged by other properties, here it only stays what it was
         [] OTHER -> Out(AnyVal, st)

-----------------------------------------------------------------------------
\* Verdict on a recorded operation: ev.objs lists for every live value its
\* class tag and bytes (v), hash code (h) and text (s) as observed afterwards.
ObservedOk(o, e) == e.v = <<o.t>> \o o.d /\ e.h = VInt(ZNat(HashCode(o.d))) /\ e.s = Text(o.d)
HexWritten(d) == IF IsHex(d) THEN HexDecode(d) ELSE d     \* known finding uint-hex

Judge(st, ev) ==
    IF ev.op = "Reset" THEN <<"", UState(<< >>, << >>)>>
    ELSE LET out == USpec(st, ev.op, ev.t, ev.x, ev.a)
             data == IF ev.op = "TypedWrite" /\ IsObj(ev.a[1]) THEN st.objs[Ref(ev.a[1])].d
                     ELSE IF ev.t > 0 THEN st.objs[ev.t].d ELSE << >>
             why == IF ev.r.k = "timeout" THEN "operation does not end"
                    ELSE IF out.r.k = "any" THEN ""
                    ELSE IF IsErr(out.r) THEN (IF IsErr(ev.r) THEN "" ELSE "invalid operation not refused")
                    ELSE IF IsErr(ev.r) THEN "valid operation refused"
                    ELSE IF ev.r # out.r
                         THEN IF ev.op \in {"Serialize", "Write", "TypedWrite"} /\ ev.r = VBytes(HexWritten(data))
                              THEN "known:uint-hex" ELSE "wrong result of " \o ev.op
                    ELSE ""
             n == Len(out.st.objs)
             heap == IF Len(ev.objs) # n THEN "a value appeared or is missing"
                     ELSE IF \E i \in 1..n : ev.objs[i].v # <<out.st.objs[i].t>> \o out.st.objs[i].d
                     THEN "a value has the wrong bytes after " \o ev.op
                     ELSE IF \E i \in 1..n : ~ObservedOk(out.st.objs[i], ev.objs[i]) THEN "hash code or text does not reflect the bytes"
                     ELSE ""
         IN <<IF why # "" /\ why # "known:uint-hex" THEN why ELSE IF heap # "" THEN heap ELSE why,
              \* continue with what was observed
              IF heap = "" THEN out.st
              ELSE UState([i \in 1..Len(ev.objs) |-> Obj(ev.objs[i].v[1], Tail(ev.objs[i].v))], out.st.bufs)>>
=============================================================================
