------------------------------ MODULE MCBase58 ------------------------------
(***************************************************************************)
(* All byte strings and all texts up to a length over small alphabets:     *)
(* Base58 is one to one in both directions, and an accepted Base58Check    *)
(* text is the only one of its payload.                                    *)
(***************************************************************************)
EXTENDS Base58, TLC
CONSTANTS MaxLen, ByteSet, CharSet
VARIABLES b, t
Init == b = << >> /\ t = << >>
Next == \/ t = << >> /\ Len(b) < MaxLen /\ \E x \in ByteSet : b' = Append(b, x) /\ UNCHANGED t
        \/ b = << >> /\ Len(t) < MaxLen /\ \E x \in CharSet : t' = Append(t, x) /\ UNCHANGED b
BytesBack == B58Decode(B58Encode(b)) = b /\ IsB58(B58Encode(b))
TextBack == IsB58(t) => B58Encode(B58Decode(t)) = t
CheckBack == B58Payload(B58CheckText(b)) = b
Checked == LET p == B58Payload(t) IN p # NoPayload => B58CheckText(p) = t
=============================================================================
