------------------------------- MODULE Base58 -------------------------------
(***************************************************************************)
(* Base58 and Base58Check texts: a leading zero byte is a leading "1", the *)
(* rest is the big-endian number in base 58.                               *)
(***************************************************************************)
EXTENDS Big, Bytes, Prims

B58Alphabet == <<49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86,
                 87, 88, 89, 90, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118,
                 119, 120, 121, 122>>
B58Chars == {B58Alphabet[i] : i \in 1..58}
B58Index == [ch \in 0..127 |-> IF ch \in B58Chars THEN (CHOOSE i \in 1..58 : B58Alphabet[i] = ch) - 1 ELSE 99]
IsB58(t) == \A i \in 1..Len(t) : t[i] \in B58Chars

RECURSIVE LeadCount(_, _, _)
LeadCount(s, x, i) == IF i <= Len(s) /\ s[i] = x THEN LeadCount(s, x, i + 1) ELSE i - 1
Lead(s, x) == LeadCount(s, x, 1)

RECURSIVE B58DigitsOf(_)         \* most significant first
B58DigitsOf(n) == IF n = << >> THEN << >>
                  ELSE LET qr == NDivMod(n, <<58>>)
                       IN Append(B58DigitsOf(qr[1]), B58Alphabet[1 + NToInt(qr[2])])
B58Encode(b) == [i \in 1..Lead(b, 0) |-> 49] \o B58DigitsOf(NNorm(Rev(b)))

RECURSIVE B58Number(_, _, _)
B58Number(t, i, acc) == IF i > Len(t) THEN acc
                        ELSE B58Number(t, i + 1, NAdd(NMul(acc, <<58>>), NFromInt(B58Index[t[i]])))
B58Decode(t) == Zeros(Lead(t, 49)) \o Rev(B58Number(t, 1, << >>))          \* of a text over the alphabet

Checksum(b) == Take(Hash256(b), 4)
B58CheckText(b) == B58Encode(b \o Checksum(b))
\* the payload of a Base58Check text, or NoPayload
NoPayload == <<-1>>
B58Payload(t) ==
    IF ~IsB58(t) THEN NoPayload
    ELSE LET b == B58Decode(t)
             p == Take(b, Len(b) - 4)
         IN IF Len(b) < 4 \/ Checksum(p) # Drop(b, Len(b) - 4) THEN NoPayload ELSE p
=============================================================================
