------------------------------ MODULE NeoSign ------------------------------
(***************************************************************************)
(* Signing and verification as a machine whose backend has process-wide    *)
(* curve settings.                                                         *)
(*                                                                         *)
(* State: backend, the curve the shared arithmetic is set to ("btc" after  *)
(* the start of a process, "neo", or "other" when some other code has set  *)
(* it); keys, the private keys of the key pairs of this process; sigs, the *)
(* signatures made so far, which outlive a process; memo, the signature    *)
(* that each (message, key) has.  Which signature a message gets is not    *)
(* fixed (the nonce is free), only that it satisfies the ECDSA equation    *)
(* and that it is always the same one.  No operation reads backend without *)
(* setting it: results do not depend on it.                                *)
(***************************************************************************)
EXTENDS EC, Prims

SState(backend, keys, sigs, memo) == [backend |-> backend, keys |-> keys, sigs |-> sigs, memo |-> memo]
SInit == SState("btc", << >>, << >>, << >>)
SetsBackend == {"NewKey", "Default", "Sign", "SignInst", "Verify33"}     \* sets "neo" before anything else
ReadsBackend == {"NewKey", "Sign", "SignInst", "Verify33"}
After(op, backend) == IF op = "Restart" THEN "btc" ELSE IF op = "Foreign" THEN "other" ELSE IF op \in SetsBackend THEN "neo" ELSE backend

InRange(k) == k # << >> /\ NLt(k, P256n)
PubOf(priv) == ECMul(P256, FromBE(priv), P256G)
Digest(m) == FromBE(Sha256(m))
SigR(s) == FromBE(Take(s, 32))
SigS(s) == FromBE(Drop(s, 32))
ValidFor(m, sig, Y) == /\ Len(sig) = 64
                       /\ InRange(SigR(sig)) /\ InRange(SigS(sig))
                       /\ VerifyEq(P256, P256G, P256n, Y, NMod(Digest(m), P256n), SigR(sig), SigS(sig))

\* the point a key argument stands for: a point, 33 compressed or 64 raw bytes
KeyPoint(x) ==
    CASE x.k = "pt" ->
           LET Q == <<ZMag(x.c[1].v), ZMag(x.c[2].v)>>
           IN IF ~ZNeg1(x.c[1].v) /\ ~ZNeg1(x.c[2].v) /\ NLt(Q[1], P256.p) /\ NLt(Q[2], P256.p) /\ OnCurve(P256, Q) THEN Q ELSE NoPoint
      [] x.k = "bytes" /\ Len(x.v) = 33 -> IF x.v[1] \in {2, 3} THEN DecodePoint(P256, 32, x.v) ELSE NoPoint
      [] x.k = "bytes" /\ Len(x.v) = 64 -> DecodePoint(P256, 32, <<4>> \o x.v)
      [] OTHER -> NoPoint
IsWhole65(x) == x.k = "bytes" /\ Len(x.v) = 65 /\ x.v[1] = 4        \* a third usual form, not promised
\* the bytes a message argument stands for, or NoMsg
NoMsg == <<-1>>
MsgBytes(x, unhex) ==
    IF x.k \notin {"str", "bytes"} THEN NoMsg
    ELSE IF unhex /\ IsHex(x.v) THEN HexDecode(x.v) \o << >>
    ELSE IF x.k = "bytes" THEN x.v
    ELSE IF unhex \/ (\E i \in 1..Len(x.v) : IsSurrogate(x.v[i])) THEN NoMsg
    ELSE EncodeText(x.v, "utf-8")
\* text that is not hexadecimal although it is announced to be
Undecided(x, unhex) == x.k = "str" /\ unhex /\ ~IsHex(x.v)

\* the outcomes of a verification
VerifyOut(msg, sig, key, unhex) ==
    IF IsWhole65(key) \/ Undecided(msg, unhex) THEN {VBool(TRUE), VBool(FALSE)}
    ELSE LET Q == KeyPoint(key)
             m == MsgBytes(msg, unhex)
         IN {VBool(Q # NoPoint /\ Q # Inf /\ m # NoMsg /\ sig.k = "bytes" /\ ValidFor(m, sig.v, Q))}

-----------------------------------------------------------------------------
\* Verdict on a recorded operation: ev.a the arguments as they were handed
\* over (references already resolved), ev.r the result; a signature made is
\* checked against the equation and against the earlier one.
MemoOf(memo, m, priv) == LET S == {i \in 1..Len(memo) : memo[i].m = m /\ memo[i].priv = priv}
                         IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
WrittenKey(priv) == LET Q == PubOf(priv) IN Val("key", << >>, <<VBytes(priv), VInt(ZNat(Q[1])), VInt(ZNat(Q[2]))>>)

JInit == SInit
Judge(st, ev) ==
    LET backend == After(ev.op, st.backend)
        st1 == [st EXCEPT !.backend = backend]
        bad(w) == <<w, st1>>
        ok(s) == <<"", s>>
    IN CASE ev.op = "Reset" -> ok(SInit)
         [] ev.op = "Restart" -> ok([st1 EXCEPT !.keys = << >>])
         [] ev.r.k = "timeout" -> bad("operation does not end")
         [] ev.op \in {"Foreign", "Default", "Other"} -> IF IsErr(ev.r) THEN bad("refused: " \o ev.op) ELSE ok(st1)
         [] ev.op = "NewKey" ->
              IF ~InRange(FromBE(ev.a[1].v)) THEN (IF IsErr(ev.r) THEN ok(st1) ELSE bad("not refused: NewKey"))
              ELSE IF ev.r # WrittenKey(ev.a[1].v) THEN bad("wrong key pair")
              ELSE ok([st1 EXCEPT !.keys = Append(@, ev.a[1].v)])
         [] ev.op \in {"Sign", "SignInst"} ->
              LET m == HexDecode(ev.a[1].v) \o << >>
                  priv == HexDecode(ev.a[2].v) \o << >>
                  i == MemoOf(st.memo, m, priv)
              IN IF ~IsHex(ev.a[1].v) \/ ~IsHex(ev.a[2].v) \/ Len(priv) # 32 \/ ~InRange(FromBE(priv)) THEN ok(st1)      \* not claimed
                 ELSE IF IsErr(ev.r) THEN bad("refused: Sign")
                 ELSE IF ev.r.k # "bytes" \/ Len(ev.r.v) # 64 THEN bad("a signature is not 64 bytes")
                 ELSE IF i # 0 THEN (IF st.memo[i].sig # ev.r.v THEN bad("another signature for the same message and key")
                                     ELSE ok([st1 EXCEPT !.sigs = Append(@, ev.r.v)]))
                 ELSE IF ~ValidFor(m, ev.r.v, PubOf(priv)) THEN bad("an invalid signature was made")
                 ELSE ok([st1 EXCEPT !.sigs = Append(@, ev.r.v), !.memo = Append(@, [m |-> m, priv |-> priv, sig |-> ev.r.v])])
         [] ev.op \in {"Verify33", "Verify64", "VerifyPt", "Verify", "VerifyInst"} ->
              IF ev.r \in VerifyOut(ev.a[1], ev.a[2], ev.a[3], ZToInt(ev.a[4].v) = 1) THEN ok(st1)
              ELSE IF IsErr(ev.r) THEN bad("verification raised an exception")
              ELSE IF ev.r = VBool(TRUE) THEN bad("an invalid signature was accepted")
              ELSE IF ev.r = VBool(FALSE) THEN bad("a valid signature was rejected")
              ELSE bad("verification did not return a truth value")
=============================================================================
