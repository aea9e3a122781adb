------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* All option lists of up to MaxOpts options over few texts, every run     *)
(* stage by stage.  Checked: a run that succeeds has printed every         *)
(* conversion asked for, a run that fails prints nothing after the         *)
(* failure, what one direction prints the other converts back.             *)
(***************************************************************************)
EXTENDS NeoCli, TLC, Json
CONSTANTS MaxOpts, Hashes
H1 == [i \in 1..20 |-> (i * 13) % 256]
H2 == Zeros(20)
H3 == [i \in 1..20 |-> IF i % 2 = 0 THEN 39 ELSE 34]
HashSet == {CASE i = 1 -> H1 [] i = 2 -> H2 [] i = 3 -> H3 : i \in Hashes}
A(h) == AddressOf(h)
Addresses == {A(h) : h \in HashSet} \cup {B58CheckText(<<24>> \o H1), Alter(A(H1), 0, 5, 122), Take(A(H1), 33), << >>}
Prints == UNION {{BigEndianText(h), HexEncode(h) \o << >>} : h \in HashSet} \cup {Take(BigEndianText(H1), 41), BigEndianText(H1) \o <<48>>, HexEncode(<<1, 2>>), <<120>>, << >>}
Options == {[o |-> "a2s", a |-> t] : t \in Addresses} \cup {[o |-> "s2a", a |-> t] : t \in Prints} \cup {[o |-> "wallet", a |-> << >>], [o |-> "bad", a |-> << >>]}
VARIABLES opts, run
Init == opts = << >> /\ run = CRun("collect", << >>, FALSE, 0)
Next == \/ run.pc = "collect" /\ Len(opts) < MaxOpts /\ (\E o \in Options : opts' = Append(opts, o)) /\ UNCHANGED run
        \/ run.pc = "collect" /\ run' = Start(opts) /\ UNCHANGED opts
        \/ run.pc \notin {"collect", "done"} /\ run' = StageStep(opts, run) /\ UNCHANGED opts
Done == run.pc = "done"
Complete == Done /\ ~run.failed =>
    /\ Has(opts, "a2s") => Take(run.out, 3) = HashLines(AddressHash(Last(opts, "a2s")))
    /\ Has(opts, "s2a") => run.out[Len(run.out)] = AddressOf(PrintedHash(Last(opts, "s2a")))
    /\ Has(opts, "wallet") <=> run.wallets = 1
Fails == Done /\ run.failed => run.wallets = 0 /\ Len(run.out) \in {0, 3}
Inverse == Done /\ ~run.failed /\ Has(opts, "a2s") =>
    LET be == Drop(run.out[1], Len(L1)) le == Drop(run.out[2], Len(L2))
    IN /\ AddressOf(PrintedHash(be)) = Last(opts, "a2s")
       /\ AddressOf(PrintedHash(le)) = Last(opts, "a2s")
       /\ AddressLines(be) = <<Last(opts, "a2s")>> /\ AddressLines(le)[3] = Last(opts, "a2s")
Deterministic == Done => run = Result(opts)
Emit == Done => PrintT("PROG " \o ToJson(opts))
=============================================================================
