------------------------------- MODULE NeoCli -------------------------------
(***************************************************************************)
(* The command-line tool as a machine: a run starts with its options and   *)
(* passes the stages address-to-scripthash, scripthash-to-address, wallet. *)
(* A stage prints lines or ends the run with a failure.                    *)
(*                                                                         *)
(* State of a run: pc, out (lines printed so far), failed, wallets (how    *)
(* many wallets it prints).  Across runs: made, the private keys of all    *)
(* wallets created, which never repeat.                                    *)
(***************************************************************************)
EXTENDS NeoKey

Text(s) == s            \* strings of this module are code point sequences
L1 == <<83, 99, 114, 105, 112, 116, 104, 97, 115, 104, 32, 98, 105, 103, 32, 101, 110, 100, 105, 97, 110, 58, 32, 32>>              \* Scripthash big endian:__
L2 == <<83, 99, 114, 105, 112, 116, 104, 97, 115, 104, 32, 108, 105, 116, 116, 108, 101, 32, 101, 110, 100, 105, 97, 110, 58, 32>>  \* Scripthash little endian:_
L3 == <<83, 99, 114, 105, 112, 116, 104, 97, 115, 104, 32, 110, 101, 111, 45, 112, 121, 116, 104, 111, 110, 32, 102, 111, 114, 109,
        97, 116, 58, 32>>                                                                                                          \* Scripthash neo-python format:_
N1 == <<68, 101, 116, 101, 99, 116, 101, 100, 32, 108, 105, 116, 116, 108, 101, 32, 101, 110, 100, 105, 97, 110, 32, 115, 99, 114, 105, 112,
        116, 104, 97, 115, 104, 46, 32, 67, 111, 110, 118, 101, 114, 116, 105, 110, 103, 32, 116, 111, 32, 98, 105, 103, 32, 101, 110, 100, 105,
        97, 110, 32, 102, 111, 114, 32, 105, 110, 116, 101, 114, 110, 97, 108, 32, 117, 115, 101, 46>>
N2 == <<66, 105, 103, 32, 101, 110, 100, 105, 97, 110, 32, 115, 99, 114, 105, 112, 116, 104, 97, 115, 104, 58, 32>>                 \* Big endian scripthash:_

\* the text Python prints for a byte string
ReprByte(x, q) == CASE x = 92 -> <<92, 92>> [] x = q -> <<92, q>> [] x = 9 -> <<92, 116>> [] x = 10 -> <<92, 110>> [] x = 13 -> <<92, 114>>
                    [] x >= 32 /\ x < 127 -> <<x>>
                    [] OTHER -> <<92, 120>> \o HexEncode(<<x>>)
HasByte(b, x) == \E i \in 1..Len(b) : b[i] = x
PyRepr(b) == LET q == IF HasByte(b, 39) /\ ~HasByte(b, 34) THEN 34 ELSE 39
             IN <<98, q>> \o MapFlat(b, LAMBDA x : ReprByte(x, q)) \o <<q>>

HashLines(h) == <<L1 \o BigEndianText(h), L2 \o HexEncode(h), L3 \o PyRepr(h)>>
AddressLines(t) == LET h == PrintedHash(t)
                   IN IF StartsWith(t, <<48, 120>>) THEN <<AddressOf(h)>> ELSE <<N1, N2 \o BigEndianText(h), AddressOf(h)>>

\* options: [o |-> name, a |-> its text]; a repeated option counts once, with its last text
Has(opts, o) == \E i \in 1..Len(opts) : opts[i].o = o
Last(opts, o) == opts[CHOOSE i \in 1..Len(opts) : opts[i].o = o /\ \A j \in (i + 1)..Len(opts) : opts[j].o # o].a
CRun(pc, out, failed, wallets) == [pc |-> pc, out |-> out, failed |-> failed, wallets |-> wallets]
Start(opts) ==
    IF Has(opts, "bad") \/ opts = << >> THEN CRun("done", << >>, TRUE, 0)
    ELSE CRun("a2s", << >>, FALSE, 0)
StageStep(opts, r) ==
    CASE r.pc = "a2s" ->
           IF ~Has(opts, "a2s") THEN [r EXCEPT !.pc = "s2a"]
           ELSE LET h == AddressHash(Last(opts, "a2s"))
                IN IF h = NoPayload THEN [r EXCEPT !.pc = "done", !.failed = TRUE]
                   ELSE [r EXCEPT !.pc = "s2a", !.out = @ \o HashLines(h)]
      [] r.pc = "s2a" ->
           IF ~Has(opts, "s2a") THEN [r EXCEPT !.pc = "wallet"]
           ELSE IF PrintedHash(Last(opts, "s2a")) = NoPayload THEN [r EXCEPT !.pc = "done", !.failed = TRUE]
           ELSE [r EXCEPT !.pc = "wallet", !.out = @ \o AddressLines(Last(opts, "s2a"))]
      [] r.pc = "wallet" -> [r EXCEPT !.pc = "done", !.wallets = IF Has(opts, "wallet") THEN 1 ELSE 0]
RECURSIVE Finish(_, _)
Finish(opts, r) == IF r.pc = "done" THEN r ELSE Finish(opts, StageStep(opts, r))
Result(opts) == Finish(opts, Start(opts))

-----------------------------------------------------------------------------
\* Verdict on a recorded run: ev.opts; ev.out the lines on standard output up
\* to a wallet; ev.wallets what was printed as wallets; ev.status; ev.err
\* whether anything was written to standard error, ev.crash whether the run
\* ended in an unhandled exception.
\* a printed line that is or ends in a conversion (the notice about a little
\* endian text shows its bytes reversed, whatever their number)
EndsInConversion(line) ==
  /\ ~(StartsWith(line, N2) /\ Len(line) # Len(N2) + 42)
  /\
    \/ Len(line) >= 34 /\ AddressHash(SubSeq(line, Len(line) - 33, Len(line))) # NoPayload
    \/ Len(line) >= 40 /\ IsHex(SubSeq(line, Len(line) - 39, Len(line)))
    \/ StartsWith(line, L3)
White(t) == t # Stripped(t) /\ AddressHash(t) = NoPayload /\ AddressHash(Stripped(t)) # NoPayload
Unsettled(opts) == Has(opts, "a2s") /\ White(Last(opts, "a2s"))
WalletOk(w, made) ==
    IF w.k # "wallet" THEN "the wallet is not readable"
    ELSE LET priv == WifKey(w.c[1].v)
         IN IF w.c[1].k # "str" \/ priv = NoPayload \/ ~InRange(FromBE(priv)) THEN "the private key of the wallet is not in wallet import format"
            ELSE IF w.c[2] # VStr(KeyAddress(Key(priv))) THEN "the address of the wallet is not that of its key"
            ELSE IF priv \in made THEN "two wallets have the same key"
            ELSE ""
CInit == {}
CJudge(made, ev) ==
    IF ev.op = "Reset" THEN <<"", {}>>
    ELSE IF ev.r.k = "timeout" THEN <<"the tool does not end", made>>
    ELSE IF ev.op = "help" THEN <<IF ev.status = 0 /\ ev.out # << >> THEN "" ELSE "no help or version", made>>
    ELSE IF ev.op = "Wallet"      \* the library function behind the option
    THEN LET w == WalletOk(ev.r, made) IN <<w, IF w = "" THEN made \cup {WifKey(ev.r.c[1].v)} ELSE made>>
    ELSE LET res == Result(ev.opts)
             n == Len(res.out)
             lines == [i \in 1..Len(ev.out) |-> ev.out[i].v] \o << >>
             rest == SubSeq(lines, n + 1, Len(lines))
             why == IF ev.crash THEN "the tool ends in an unhandled exception"
                    ELSE IF Unsettled(ev.opts) THEN ""
                    ELSE IF res.failed
                    THEN IF ev.status = 0 THEN "invalid input reported as success"
                         ELSE IF Len(lines) < n \/ Take(lines, n) # res.out THEN "wrong output before the failure"
                         ELSE IF \E i \in 1..Len(rest) : EndsInConversion(rest[i]) THEN "a conversion of invalid input was printed"
                         ELSE IF ev.wallets # << >> THEN "a wallet was printed after a failure"
                         ELSE IF rest = << >> /\ ~ev.err THEN "no error printed" ELSE ""
                    ELSE IF ev.status # 0 THEN "valid input reported as a failure"
                    ELSE IF lines # res.out THEN "wrong output"
                    ELSE IF Len(ev.wallets) # res.wallets THEN "wrong number of wallets"
                    ELSE IF res.wallets = 1 THEN WalletOk(ev.wallets[1], made) ELSE ""
         IN <<why, IF why = "" /\ Len(ev.wallets) = 1 THEN made \cup {WifKey(ev.wallets[1].c[1].v)} ELSE made>>
=============================================================================
