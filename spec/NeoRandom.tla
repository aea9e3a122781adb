----------------------------- MODULE NeoRandom -----------------------------
(***************************************************************************)
(* Where generated keys come from.  The machine has a strong source, the   *)
(* stream of bits of the operating system, and weak ones: the state of the *)
(* general purpose generator, the clock, what the process inherited over a *)
(* fork.  A generation takes bits off the stream and makes a key.          *)
(*                                                                         *)
(* Secrecy is a statement about pairs of executions: two worlds that agree *)
(* on everything but bits the strong source handed out during one          *)
(* generation must make different keys in it, for at least Need bits.      *)
(* A recorded generation therefore carries its variants: the key made from *)
(* the very same state when one of the bits taken is turned over.          *)
(*                                                                         *)
(* State: made, the keys made so far, by source.                           *)
(***************************************************************************)
EXTENDS NeoCli, FiniteSets, TLC

KeyBits == 256

\* base: the key made, variants: the keys made with one bit turned over each
Influential(base, variants) == {i \in 1..Len(variants) : variants[i] # base}
Enough(base, variants, need) ==
    /\ Cardinality(Influential(base, variants)) >= need
    /\ Cardinality({variants[i] : i \in Influential(base, variants)}) >= need

\* the dimension of the space the differences of some keys span over {0, 1}
HighBit(x) == IF x >= 128 THEN 1 ELSE IF x >= 64 THEN 2 ELSE IF x >= 32 THEN 3 ELSE IF x >= 16 THEN 4
              ELSE IF x >= 8 THEN 5 ELSE IF x >= 4 THEN 6 ELSE IF x >= 2 THEN 7 ELSE 8
RECURSIVE LeadFrom(_, _)
LeadFrom(v, i) == IF i > Len(v) THEN 0 ELSE IF v[i] # 0 THEN 8 * (i - 1) + HighBit(v[i]) ELSE LeadFrom(v, i + 1)
RECURSIVE Insert(_, _)
Insert(basis, v) ==      \* basis: vectors by their leading bit
    LET k == LeadFrom(v, 1)
    IN IF k = 0 THEN basis
       ELSE IF k \in DOMAIN basis THEN Insert(basis, XorBytes(basis[k], v) \o << >>)
       ELSE basis @@ (k :> v)
RECURSIVE Basis(_, _, _, _)
Basis(vs, i, first, basis) == IF i > Len(vs) THEN basis ELSE Basis(vs, i + 1, first, Insert(basis, XorBytes(vs[i], first) \o << >>))
Rank(vs) == IF vs = << >> THEN 0 ELSE Cardinality(DOMAIN Basis(vs, 2, vs[1], << >>))

-----------------------------------------------------------------------------
\* Verdict on a recorded step.  Gen: ev.x the source, ev.r what it returned,
\* ev.taken the number of bits it took off the stream, ev.text its key as
\* text, ev.again that of a second run from the same state on the same
\* stream, ev.variants those with a bit turned over (empty if not tried).
Sources == {"random_key", "wallet"}
RInit == [made |-> [x \in Sources |-> << >>]]
KeyMade(ev) ==
    IF ev.x = "random_key"
    THEN IF ev.r.k \notin {"bytes", "str"} \/ Len(ev.r.v) # 64 THEN NoPayload
         ELSE IF \E i \in 1..64 : ~IsHexChar(ev.r.v[i]) THEN NoPayload ELSE HexDecode(ev.r.v) \o << >>
    ELSE IF WalletOk(ev.r, {}) # "" THEN NoPayload ELSE WifKey(ev.r.c[1].v)
Member(s, v) == \E i \in 1..Len(s) : s[i] = v
RJudge(st, ev) ==
    IF ev.op = "Reset" THEN <<"", RInit>>
    ELSE IF ev.op = "Span"
    THEN <<IF \E x \in Sources : Len(st.made[x]) >= KeyBits + 60 /\ Rank(st.made[x]) < KeyBits
           THEN "the keys generated do not span all 256 bits" ELSE "", st>>
    ELSE IF ev.op # "Gen" THEN <<"", st>>
    ELSE IF ev.r.k = "timeout" THEN <<"no key generated", st>>
    ELSE LET key == KeyMade(ev)
         IN IF key = NoPayload THEN <<"malformed key", st>>
            ELSE LET st2 == [st EXCEPT !.made[ev.x] = Append(@, key)]
                 IN IF \E x \in Sources : Member(st.made[x], key) THEN <<"a key was generated twice", st2>>
                    \* everything that enters the key is under control, so the stream must be what decides
                    ELSE IF ev.again = ev.text /\ ev.taken < KeyBits
                    THEN <<"a key made from fewer than 256 bits of the system's randomness", st2>>
                    ELSE IF ev.again = ev.text /\ ev.variants # << >> /\ ~Enough(ev.text, ev.variants, KeyBits)
                    THEN <<"a key that fewer than 256 bits of the system's randomness decide", st2>>
                    ELSE <<"", st2>>
=============================================================================
