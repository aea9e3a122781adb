------------------------------- MODULE MCHelp -------------------------------
(***************************************************************************)
(* The byte helpers over all pairs of short byte strings: exclusive-or is  *)
(* its own inverse, byte swapping too, the base-256 text has the value and *)
(* the width asked for, hexadecimal text names its bytes.  Every pair is   *)
(* printed as a program.                                                   *)
(***************************************************************************)
EXTENDS NeoKey, TLC, Json
CONSTANTS MaxLen, Alpha
VARIABLES a, b
Init == a = << >> /\ b = << >>
Next == \/ Len(a) < MaxLen /\ b = << >> /\ (\E x \in Alpha : a' = Append(a, x)) /\ UNCHANGED b
        \/ Len(b) < MaxLen /\ (\E x \in Alpha : b' = Append(b, x)) /\ UNCHANGED a
NatOf(s) == NNorm(Rev(s))
XorLaw == Len(a) = Len(b) => LET x == XorBytes(a, b) IN /\ XorBytes(x, b) \o << >> = a
                                                        /\ XorBytes(b, a) \o << >> = x \o << >>
                                                        /\ (a = b) <=> (x \o << >> = Zeros(Len(a)))
SwapLaw == Swap32(Swap32(NatOf(a))) = NatOf(a) /\ (NatOf(a) # << >> => Swap32(NatOf(a)) # << >>)
WidthLaw == \A w \in 0..5 : LET e == LE256(NatOf(a), w) IN NNorm(e) = NatOf(a) /\ Len(e) >= w /\ Len(e) <= Max(Max(w, 1), Len(a))
HexLaw == IsHex(HexEncode(a)) /\ HexDecode(HexEncode(a)) \o << >> = a
BitLaw == LET t == BitText(NatOf(a), 24) IN Len(t) = 24 /\ \A i \in 1..24 : t[i] = 49 <=> NOdd(NShr(NatOf(a), 24 - i))
HashLaw == /\ Len(Hash160(a)) = 20 /\ Len(Hash256(a)) = 32
           /\ HashOp("bin_hash160", a).v = HexEncode(HashOp("bin_hash160Bytes", a).v) \o << >>
S(op, x, xs) == [op |-> op, x |-> x, t |-> 0, a |-> xs]
Emit == PrintT("PROG " \o ToJson(<<S("xor", "", <<VBytes(a), VBytes(b)>>),
            S("swap32", "", <<VInt(ZNat(NatOf(a)))>>), S("base256", "", <<VInt(ZNat(NatOf(a))), VInt(ZFromInt(Len(b)))>>),
            S("Hash", "bin_hash160", <<VBytes(a)>>), S("Hash", "Crypto.Hash256", <<VBytes(b)>>),
            S("ToScriptHash", "", <<VBytes(HexEncode(a)), VInt(<<0, 1>>)>>), S("ToScriptHash", "", <<VBytes(b), VInt(<<0>>)>>),
            S("pubkey_to_redeem", "", <<VBytes(HexEncode(b))>>)>>))
=============================================================================
