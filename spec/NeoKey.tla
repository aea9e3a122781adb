------------------------------- MODULE NeoKey -------------------------------
(***************************************************************************)
(* Key pairs, their texts (addresses, WIF, NEP-2) and the hash helpers as  *)
(* a machine.                                                              *)
(*                                                                         *)
(* State: keys, the key pairs alive, each [priv, pub]; vals, the texts and *)
(* byte strings produced so far, which later steps take as arguments,      *)
(* altered or not; made, the random keys drawn.  Operations only ever add; *)
(* no operation changes a key pair.                                        *)
(***************************************************************************)
EXTENDS EC, Base58

KeyState(keys, vals, made) == [keys |-> keys, vals |-> vals, made |-> made]
Out(r, st) == [r |-> r, st |-> st]
VAny == Val("any", << >>, << >>)              \* not specified
VConv == Val("conv", << >>, << >>)            \* the documented conversion error

InRange(k) == k # << >> /\ NLt(k, P256n)
PubOf(priv) == ECMul(P256, FromBE(priv), P256G)
Key(priv) == [priv |-> priv, pub |-> PubOf(priv)]

\* scripts and addresses
AddressVersion == 23
CheckSigScript(pub) == <<33>> \o Compressed(pub, 32) \o <<172>>
AddressOf(hash) == B58CheckText(<<AddressVersion>> \o hash)
KeyAddress(k) == AddressOf(Hash160(CheckSigScript(k.pub)))
AddressHash(t) ==          \* the script hash of an address, or NoPayload
    LET p == B58Payload(t) IN IF p # NoPayload /\ Len(p) = 21 /\ p[1] = AddressVersion THEN Tail(p) ELSE NoPayload
Spaces == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
RECURSIVE Stripped(_)
Stripped(t) == IF t # << >> /\ t[Len(t)] \in Spaces THEN Stripped(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* the script hash a printed form stands for: 0x and the number, or its bytes
PrintedHash(t) ==
    IF StartsWith(t, <<48, 120>>)
    THEN IF Len(t) = 42 /\ IsHex(Drop(t, 2)) THEN Rev(HexDecode(Drop(t, 2))) ELSE NoPayload
    ELSE IF Len(t) = 40 /\ IsHex(t) THEN HexDecode(t) ELSE NoPayload
BigEndianText(h) == <<48, 120>> \o HexEncode(Rev(h))

\* wallet import format
WifOf(priv) == B58CheckText(<<128>> \o priv \o <<1>>)
WifKey(t) ==
    LET p == B58Payload(t)
    IN IF p # NoPayload /\ Len(p) = 34 /\ p[1] = 128 /\ p[34] = 1 THEN SubSeq(p, 2, 33) ELSE NoPayload

\* NEP-2
Nep2Salt(k) == Checksum(KeyAddress(k))
Nep2Derived(pass, salt) == Scrypt(EncodeText(Nfc(pass), "utf-8"), salt, 16384, 8, 8, 64)
Nep2Header == <<1, 66, 224>>
Nep2Of(k, pass) ==
    LET salt == Nep2Salt(k)
        d == Nep2Derived(pass, salt)
    IN B58CheckText(Nep2Header \o salt \o AesEncrypt(Drop(d, 32), XorBytes(k.priv, Take(d, 32)) \o << >>))
Nep2Key(t, pass) ==
    LET p == B58Payload(t)
    IN IF p = NoPayload \/ Len(p) # 39 \/ ~StartsWith(p, Nep2Header) THEN NoPayload
       ELSE LET salt == SubSeq(p, 4, 7)
                d == Nep2Derived(pass, salt)
                priv == XorBytes(AesDecrypt(Drop(d, 32), Drop(p, 7)), Take(d, 32)) \o << >>
            IN IF InRange(FromBE(priv)) /\ Nep2Salt(Key(priv)) = salt THEN priv ELSE NoPayload
HasSurrogate(s) == \E i \in 1..Len(s) : IsSurrogate(s[i])

\* alterations of a text at a position
Alter(t, kind, pos, ch) ==
    LET i == 1 + IF t = << >> THEN 0 ELSE pos % Len(t)
    IN IF t = << >> THEN <<ch>>
       ELSE CASE kind = 0 -> [t EXCEPT ![i] = ch]
              [] kind = 1 -> Take(t, i - 1) \o <<ch>> \o Drop(t, i - 1)
              [] kind = 2 -> Take(t, i - 1) \o Drop(t, i)
              [] kind = 3 -> IF i = Len(t) THEN t ELSE [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
              [] kind = 4 -> Append(t, ch)
              [] kind = 5 -> Take(t, i - 1)

\* numbers as bytes
LE256(n, w) == LET b == IF n = << >> THEN <<0>> ELSE n IN b \o Zeros(Max(0, w - Len(b)))
Swap32(n) == NNorm(Rev(n \o Zeros(4 - Len(n))))
RECURSIVE BitText(_, _)
BitText(n, w) == IF w = 0 THEN << >> ELSE Append(BitText(NHalf(n), w - 1), IF NOdd(n) THEN 49 ELSE 48)

\* x: the entry point of an operation that has several
HashOp(x, b) ==
    CASE x \in {"Crypto.Hash160", "bin_hash160"} -> VStr(HexEncode(Hash160(b)))
      [] x \in {"Crypto.Hash160Bytes", "bin_hash160Bytes", "inst.Hash160", "redeem_to_scripthash"} -> VBytes(Hash160(b))
      [] x \in {"Crypto.Hash256", "bin_dbl_sha256", "inst.Hash256"} -> VBytes(Hash256(b))
      [] x = "double_sha256" -> VStr(HexEncode(Hash256(b)))

KSpec(st, op, x, t, xs) ==
    LET a == [i \in 1..Len(xs) |-> IF xs[i].k = "ref" THEN st.vals[xs[i].v[1]] ELSE xs[i]] \o << >>
        k == st.keys[t]
        made(r) == IF r.k \in {"str", "bytes"} THEN Out(r, [st EXCEPT !.vals = Append(@, r)]) ELSE Out(r, st)
        opt(p, r) == IF p = NoPayload THEN Out(VErr, st) ELSE made(r)
    IN CASE op \in {"NewKey", "NewKeyBuf"} ->
              LET b == a[1].v n == Len(b) priv == Drop(b, n - 32)
              IN IF n \notin {32, 96, 104} THEN Out(VErr, st)
                 ELSE IF ~InRange(FromBE(priv)) THEN Out(VErr, st)
                 ELSE IF n > 32 /\ <<FromBE(SubSeq(b, n - 95, n - 64)), FromBE(SubSeq(b, n - 63, n - 32))>> # PubOf(priv) THEN Out(VAny, st)
                 ELSE Out(VNone, [st EXCEPT !.keys = Append(@, Key(priv))])
         [] op = "Address" -> made(VStr(KeyAddress(k)))
         [] op = "Export" -> made(VStr(WifOf(k.priv)))
         [] op = "FromWIF" -> LET p == WifKey(a[1].v) IN opt(p, VBytes(p))
         [] op = "ExportNEP2" ->
              LET p == a[1].v
              IN IF Len(p) < 2 \/ HasSurrogate(p) THEN Out(VErr, st)
                 ELSE IF Len(Nfc(p)) < 2 THEN Out(VAny, st)      \* two code points that are one character
                 ELSE made(VStr(Nep2Of(k, p)))
         [] op = "FromNEP2" ->
              IF HasSurrogate(a[2].v) THEN Out(VErr, st) ELSE LET p == Nep2Key(a[1].v, a[2].v) IN opt(p, VBytes(p))
         [] op = "Alter" -> made([a[1] EXCEPT !.v = Alter(a[1].v, ZToInt(a[2].v), ZToInt(a[3].v), ZToInt(a[4].v))])
         [] op = "Give" -> made(a[1])
         [] op = "ToAddress" -> made(VStr(AddressOf(a[1].v)))
         [] op = "Valid" -> Out(VBool(AddressHash(a[1].v) # NoPayload), st)
         [] op = "A2S" -> LET p == AddressHash(a[1].v)
                              q == AddressHash(Stripped(a[1].v))
                          IN IF p # NoPayload THEN made(VBytes(p))
                             ELSE IF q # NoPayload THEN Out(VAny, st)         \* white space at the end
                             ELSE Out(VConv, st)
         [] op = "S2A" -> LET p == PrintedHash(a[1].v)
                          IN IF p = NoPayload THEN Out(VConv, st) ELSE made(VStr(AddressOf(p)))
         [] op = "Print" -> made(VStr(IF ZToInt(a[2].v) = 1 THEN BigEndianText(a[1].v) ELSE HexEncode(a[1].v)))
         \* hashes and bytes
         [] op = "Hash" -> Out(HashOp(x, a[1].v), st)
         [] op = "ToScriptHash" ->      \* of hexadecimal text, or of the bytes themselves
              LET s == a[1].v hex == ZToInt(a[2].v) = 1
              IN IF hex /\ Len(s) = 1 THEN Out(VAny, st)
                 ELSE IF hex /\ ~IsHex(s) THEN Out(VErr, st)
                 ELSE Out(Val("uint", <<20>> \o Hash160(IF hex THEN HexDecode(s) ELSE s), << >>), st)
         [] op = "pubkey_to_redeem" -> IF IsHex(a[1].v) THEN Out(VBytes(<<33>> \o HexDecode(a[1].v) \o <<172>>), st) ELSE Out(VErr, st)
         [] op = "pubkey_to_pubhash" -> IF IsHex(a[1].v) THEN Out(VBytes(Hash160(<<33>> \o HexDecode(a[1].v) \o <<172>>)), st) ELSE Out(VErr, st)
         [] op = "base256" -> IF ZNeg1(a[1].v) THEN Out(VErr, st) ELSE Out(VBytes(LE256(ZMag(a[1].v), ZToInt(a[2].v))), st)
         [] op = "xor" -> IF Len(a[1].v) # Len(a[2].v) THEN Out(VErr, st) ELSE Out(VBytes(XorBytes(a[1].v, a[2].v) \o << >>), st)
         [] op = "swap32" -> IF ZNeg1(a[1].v) \/ Len(a[1].v) > 5 THEN Out(VErr, st) ELSE Out(VInt(ZNat(Swap32(ZMag(a[1].v)))), st)
         [] op = "bits" -> LET w == ZToInt(a[2].v) IN
                           IF ZNeg1(a[1].v) \/ NBitLen(ZMag(a[1].v)) > w THEN Out(VAny, st) ELSE Out(VStr(BitText(ZMag(a[1].v), w)), st)
         [] op = "random_key" -> Out(Val("fresh", << >>, << >>), st)

-----------------------------------------------------------------------------
\* Verdict.  ev.keys: every key pair as it is afterwards: its private key,
\* public point, script hash of the compressed form and compressed form
Written(k) == Val("key", << >>, <<VBytes(k.priv), VInt(ZNat(k.pub[1])), VInt(ZNat(k.pub[2])),
                                  Val("uint", <<20>> \o Hash160(Compressed(k.pub, 32)), << >>), VBytes(HexEncode(Compressed(k.pub, 32)))>>)
IsFreshKey(r, made) == r.k = "bytes" /\ Len(r.v) = 64 /\ IsHex(r.v) /\ r.v \notin made

\* the written form of each key is kept beside it, so that it is computed once
JInit == [m |-> KeyState(<< >>, << >>, {}), w |-> << >>, off |-> FALSE]
Judge(js, ev) ==
    IF ev.op = "Reset" THEN <<"", JInit>>
    ELSE IF js.off THEN <<"", js>>
    ELSE LET st == js.m
             out == KSpec(st, ev.op, ev.x, ev.t, ev.a)
             n == Len(out.st.keys)
             w == IF n > Len(js.w) THEN Append(js.w, Written(out.st.keys[n])) ELSE js.w
             why == IF ev.r.k = "timeout" THEN "operation does not end"
                    ELSE IF out.r = VAny THEN ""
                    ELSE IF out.r.k = "fresh" THEN (IF IsFreshKey(ev.r, st.made) THEN "" ELSE "not a fresh key: " \o ev.op)
                    ELSE IF out.r = VErr THEN (IF IsErr(ev.r) THEN "" ELSE "not refused: " \o ev.op)
                    ELSE IF out.r = VConv THEN (IF ev.r = VConv THEN "" ELSE "no conversion error: " \o ev.op)
                    ELSE IF ev.r.k \in {"err", "conv"} THEN "refused: " \o ev.op
                    ELSE IF ev.r = out.r THEN "" ELSE "wrong result of " \o ev.op
             heap == IF out.r = VAny THEN "" ELSE IF ev.keys = w THEN "" ELSE IF Len(ev.keys) > Len(js.w) /\ SubSeq(ev.keys, 1, Len(js.w)) = js.w
                                                  THEN "wrong key pair" ELSE "a key pair was changed"
             st2 == IF ev.op = "random_key" THEN [st EXCEPT !.made = @ \cup {ev.r.v}] ELSE out.st
         IN IF why # "" \/ heap # "" THEN <<IF why # "" THEN why ELSE heap, [js EXCEPT !.off = TRUE]>>
            ELSE IF out.r = VAny THEN <<"", [js EXCEPT !.off = ev.r # VConv]>>      \* what follows an unspecified outcome is not judged
            ELSE <<"", [m |-> st2, w |-> w, off |-> FALSE]>>
=============================================================================
