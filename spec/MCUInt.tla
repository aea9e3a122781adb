------------------------------- MODULE MCUInt -------------------------------
(***************************************************************************)
(* Bounded exploration of the hash value machine: all histories of Depth   *)
(* steps over short base-class values with few distinct bytes.  Checked:   *)
(* the declared size never changes, only Deserialize changes a value, the  *)
(* order is total and agrees with the number, equality with the bytes,     *)
(* equal values have equal hash codes, formatting and parsing are inverse. *)
(* Every complete behaviour is printed as a program for the real code.     *)
(***************************************************************************)
EXTENDS NeoUInt, TLC, Json
CONSTANTS Size, Alpha, Depth, MaxObjs, EmitEvery, Ops

Words == [1..Size -> Alpha]
Longer == {w \o <<7>> : w \in Words}
Shorter == {Take(w, Size - 1) : w \in Words}
OneOf(S) == IF S = {} THEN {} ELSE {CHOOSE w \in S : TRUE}
S(op, t, x, a) == [op |-> op, t |-> t, x |-> x, a |-> a]
O(i) == Val("obj", <<i>>, << >>)
B(i) == Val("buf", <<i>>, << >>)
SizeArg == VInt(ZFromInt(Size))

VARIABLES st, hist
Init == st = UState(<< >>, << >>) /\ hist = << >>
Steps ==
    LET os == 1..Len(st.objs)
        bs == 1..Len(st.bufs)
    IN (IF Len(st.bufs) < 1 /\ "buf" \in Ops THEN {S("Buf", 0, "", <<VBytes(w)>>) : w \in Words} ELSE {})
       \cup (IF "buf" \in Ops THEN {S("SetBuf", 0, "", <<B(i), VBytes(w)>>) : i \in bs, w \in Words} ELSE {})
       \cup (IF Len(st.objs) < MaxObjs
             THEN {S("New", 0, "UIntBase", <<SizeArg, B(i)>>) : i \in bs}
                  \cup {S("New", 0, "UIntBase", <<SizeArg, VBytes(w)>>) : w \in IF "buf" \in Ops THEN OneOf(Words) ELSE Words}
                  \cup (IF "new" \in Ops THEN {S("New", 0, "UIntBase", <<SizeArg, VBytes(w)>>) : w \in OneOf(Longer) \cup OneOf(Shorter)}
                                            \cup {S("New", 0, "UIntBase", <<SizeArg>>)} ELSE {})
             ELSE {})
       \cup (IF "deser" \in Ops
             THEN {S("Deserialize", i, "", <<VBytes(w)>>) : i \in os, w \in Words \cup OneOf(Longer) \cup OneOf(Shorter) \cup {<< >>}} ELSE {})
       \cup (IF "cmp" \in Ops THEN {S(op, i, "", <<O(j)>>) : op \in {"Lt", "Le", "Gt", "Ge", "Eq", "Ne", "CompareTo"}, i \in os, j \in os} ELSE {})
       \cup (IF "fmt" \in Ops THEN {S(op, i, "", << >>) : op \in {"ToString", "To0xString", "ToString2", "ToBytes", "hash", "ScribbleArray", "Serialize"}, i \in os} ELSE {})
       \cup (IF "use" \in Ops THEN {S(op, i, "", << >>) : op \in {"Alone", "Address", "WriteList"}, i \in os} ELSE {})
       \cup (IF "use" \in Ops /\ os # {} THEN {S(op, 0, "", [i \in os |-> O(i)]) : op \in {"Tree", "Root"}} ELSE {})
       \cup (IF "sort" \in Ops /\ Len(st.objs) = MaxObjs
             THEN {S(op, IF op = "Lookup" THEN 1 ELSE 0, "", [i \in os |-> O(i)]) : op \in {"Sort", "SetSize", "Lookup"}} ELSE {})
Next == /\ Len(hist) < Depth
        /\ \E s \in Steps :
             LET out == USpec(st, s.op, s.t, s.x, s.a)
             IN /\ st' = out.st
                /\ hist' = Append(hist, s)

Ds == {st.objs[i].d : i \in 1..Len(st.objs)}
SizeFixed == \A i \in 1..Len(st.objs) : Len(st.objs[i].d) = Size
TotalOrder == \A d, e \in Ds : /\ Cmp(d, e) \in {-1, 0, 1}
                               /\ Cmp(d, e) = -Cmp(e, d)
                               /\ (Cmp(d, e) = 0) <=> d = e
                               /\ \A f \in Ds : Cmp(d, e) = -1 /\ Cmp(e, f) = -1 => Cmp(d, f) = -1
Lexicographic == \A d, e \in Ds : d # e =>
    LET i == CHOOSE k \in 1..Size : d[k] # e[k] /\ \A m \in (k + 1)..Size : d[m] = e[m]
    IN Cmp(d, e) = IF d[i] < e[i] THEN -1 ELSE 1
HashAgrees == \A d, e \in Ds : d = e => HashCode(d) = HashCode(e)
ParseInverts == \A d \in Ds : /\ ParseOk(Text(d), Size) /\ ParseData(Text(d)) = d
                              /\ ParseOk(<<48, 120>> \o Text(d), Size) /\ ParseData(<<48, 120>> \o Text(d)) = d
                              /\ ~ParseOk(Text(d), Size + 1) /\ ~ParseOk(Text(d) \o <<48>>, Size)
OnlyDeserialize == [][\A i \in 1..Len(st.objs) :
    st'.objs[i] = st.objs[i] \/ (hist'[Len(hist')].op = "Deserialize" /\ hist'[Len(hist')].t = i)]_<<st, hist>>
Emit == (Len(hist) = Depth /\ TLCGet("distinct") % EmitEvery = 0) => PrintT("PROG " \o ToJson(hist))
=============================================================================
