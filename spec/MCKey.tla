-------------------------------- MODULE MCKey --------------------------------
(***************************************************************************)
(* All histories of Depth steps over few private keys: building key pairs, *)
(* writing them as address, WIF and NEP-2 text, altering texts, reading    *)
(* them back.  Checked: key pairs lie on the curve, their public halves    *)
(* determine the texts, what is read back is what was written, each key    *)
(* has one WIF text and each script hash one address, an altered text is   *)
(* refused.  Complete behaviours are printed as programs.                  *)
(***************************************************************************)
EXTENDS NeoKey, TLC, Json
CONSTANTS Depth, MaxKeys, EmitEvery, Ops, Kinds, Places

K1 == Zeros(31) \o <<1>>
KN == BE(NSub(P256n, <<1>>), 32)
KZ == <<0>> \o [i \in 1..31 |-> (37 * i) % 256]
Bad == {Zeros(32), BE(P256n, 32), [i \in 1..32 |-> 255], Zeros(31), Zeros(33), << >>}
Privs == {K1, KN, KZ}
Long(p, n) == Zeros(n - 96) \o BE(PubOf(p)[1], 32) \o BE(PubOf(p)[2], 32) \o p
S(op, x, t, a) == [op |-> op, x |-> x, t |-> t, a |-> a]
Ref(i) == Val("ref", <<i>>, << >>)
I(i) == VInt(ZFromInt(i))
EAcute == VStr(<<112, 233>>)                     \* p and e acute, in one code point
EComb == VStr(<<112, 101, 769>>)                 \* in two
Other == VStr(<<112, 101>>)
Short == VStr(<<112>>)
HashSample == {[i \in 1..20 |-> i * 7], Zeros(20)}

VARIABLES st, hist
Init == st = KeyState(<< >>, << >>, {}) /\ hist = << >>
Steps ==
    LET ks == 1..Len(st.keys)
        texts == {i \in 1..Len(st.vals) : st.vals[i].k = "str"}
        raws == {i \in 1..Len(st.vals) : st.vals[i].k = "bytes"}
        On(o, set) == IF o \in Ops THEN set ELSE {}
    IN (IF Len(st.keys) >= MaxKeys THEN {}
        ELSE On("key", {S("NewKey", "", 0, <<VBytes(p)>>) : p \in Privs})
             \cup On("refs", {S("NewKey", "", 0, <<Ref(i)>>) : i \in {r \in raws : Len(st.vals[r].v) = 32}})
             \cup On("bad", {S("NewKey", "", 0, <<VBytes(p)>>) : p \in Bad})
             \cup On("long", {S("NewKeyBuf", "", 0, <<VBytes(Long(p, n))>>) : p \in Privs, n \in {96, 104}}))
       \cup On("address", {S("Address", "", i, << >>) : i \in ks} \cup {S(op, "", 0, <<Ref(i)>>) : op \in {"Valid", "A2S"}, i \in texts})
       \cup On("print", {S("ToAddress", v, 0, <<VBytes(h)>>) : v \in {"crypto", "helper"}, h \in HashSample}
                        \cup {S("Print", "", 0, <<Ref(i), I(e)>>) : i \in {r \in raws : Len(st.vals[r].v) = 20}, e \in {0, 1}}
                        \cup {S("S2A", "", 0, <<Ref(i)>>) : i \in texts})
       \cup On("wif", {S("Export", "", i, << >>) : i \in ks} \cup {S("FromWIF", "", 0, <<Ref(i)>>) : i \in texts})
       \cup On("nep2", {S("ExportNEP2", "", i, <<p>>) : i \in ks, p \in {EAcute, EComb, Short}}
                       \cup {S("FromNEP2", "", 0, <<Ref(i), p>>) : i \in texts, p \in {EAcute, EComb, Other}})
       \cup On("alter", {S("Alter", "", 0, <<Ref(i), I(k), I(p), I(51)>>) : i \in texts, k \in Kinds, p \in Places})
Next == /\ Len(hist) < Depth
        /\ \E s \in Steps :
             /\ st' = KSpec(st, s.op, s.x, s.t, s.a).st
             /\ hist' = Append(hist, s)

Strs == {i \in 1..Len(st.vals) : st.vals[i].k = "str"}
LastIs(op) == hist # << >> /\ hist[Len(hist)].op = op
Sound == \A i \in 1..Len(st.keys) :
            LET k == st.keys[i]
            IN /\ InRange(FromBE(k.priv)) /\ k.pub # Inf /\ OnCurve(P256, k.pub)
               /\ Len(st.keys) = i => DecodePoint(P256, 32, Compressed(k.pub, 32)) = k.pub
OneToOne == \A i \in 1..Len(st.keys), j \in 1..Len(st.keys) :
               (st.keys[i].priv = st.keys[j].priv) <=> (st.keys[i].pub = st.keys[j].pub)
\* the newest text
OneText == Strs # {} /\ ~LastIs("Alter") =>
    LET v == st.vals[Len(st.vals)].v
    IN st.vals[Len(st.vals)].k = "str" =>
       /\ (WifKey(v) # NoPayload => WifOf(WifKey(v)) = v /\ Len(v) = 52)
       /\ (AddressHash(v) # NoPayload => AddressOf(AddressHash(v)) = v /\ Len(v) = 34 /\ v[1] = 65)
       /\ (PrintedHash(v) # NoPayload => v \in {BigEndianText(PrintedHash(v)), HexEncode(PrintedHash(v))})
AlteredRefused == LastIs("Alter") =>
    LET v == st.vals[Len(st.vals)].v
        w == st.vals[hist[Len(hist)].a[1].v[1]].v
    IN v # w => /\ WifKey(v) = NoPayload \/ WifKey(w) = NoPayload
                /\ AddressHash(v) = NoPayload \/ AddressHash(w) = NoPayload
ReadBack == LastIs("FromWIF") \/ LastIs("FromNEP2") =>
    LET v == st.vals[Len(st.vals)] IN v.k = "bytes" /\ Len(v.v) = 32 => v.v \in {st.keys[i].priv : i \in 1..Len(st.keys)}
OnlyGrows == [][/\ SubSeq(st'.keys, 1, Len(st.keys)) = st.keys
                /\ SubSeq(st'.vals, 1, Len(st.vals)) = st.vals]_<<st, hist>>
Emit == (Len(hist) = Depth /\ TLCGet("distinct") % EmitEvery = 0) => PrintT("PROG " \o ToJson(hist))
=============================================================================
