------------------------------ MODULE MCMerkle ------------------------------
(***************************************************************************)
(* All histories of building and trimming over small leaf lists.  Checked: *)
(* the root and the levels never change, trimming only removes, twice the  *)
(* same trim is once, the declarative and the recursive definition of what *)
(* remains agree, no node is kept without its parent, a full tree lists    *)
(* its leaves.                                                             *)
(***************************************************************************)
EXTENDS NeoMerkle, TLC, Json
CONSTANTS MinLeaves, MaxLeaves, Trims, Dup, EmitEvery
Leaf(i) == [k \in 1..32 |-> i]
S(op, t, refs, flags) == [op |-> op, t |-> t, refs |-> refs, flags |-> flags]
VARIABLES st, hist
Init == st = MState([i \in 1..MaxLeaves |-> Leaf(i)], << >>) /\ hist = << >>
\* leaf lists: distinct hashes, or with every pattern of repetition of two hashes
Lists == {[i \in 1..n |-> i] : n \in MinLeaves..MaxLeaves}
         \cup (IF Dup THEN UNION {[1..n -> {1, 2}] : n \in MinLeaves..MaxLeaves} ELSE {})
FlagSets(n) == [1..n -> {0, 1}] \cup UNION {[1..k -> {1}] : k \in {0, n \div 2}}
Next == \/ /\ st.trees = << >>
           /\ \E refs \in Lists : LET s == S("Build", 0, refs, << >>)
                                  IN st' = MSpec(st, s.op, 0, refs, << >>).st /\ hist' = Append(hist, s)
        \/ /\ st.trees # << >> /\ Len(hist) <= Trims
           /\ \E f \in FlagSets(Len(st.trees[1].lv[1])) :
                LET s == S("Trim", 1, << >>, f)
                IN st' = MSpec(st, s.op, 1, << >>, f).st /\ hist' = Append(hist, s)
T == st.trees[1]
Has == st.trees # << >>
KeptClosed == Has => \A n \in T.kept : /\ n[1] < Len(T.lv) => <<n[1] + 1, n[2] \div 2>> \in T.kept
                                       /\ n[1] > 2 => (<<n[1] - 1, 2 * n[2]>> \in T.kept \/ <<n[1] - 1, 2 * n[2] + 1>> \in T.kept)
\* laws that depend on the flags are evaluated once per tree shape
Laws == (Has /\ Len(hist) = 1) =>
        /\ Frontier(T.lv, T.kept, Len(T.lv), 0) = {T.lv[1][i] : i \in 1..Len(T.lv[1])}
        /\ \A f \in FlagSets(Len(T.lv[1])) :
             LET k == KeptAfter(T.lv, T.kept, f)
             IN /\ KeptAfter(T.lv, k, f) = k
                /\ (Len(T.lv) > 1 => k = KeptRec(T.lv, T.kept, f, Len(T.lv)))
                /\ (\A i \in 1..Len(f) : f[i] = 0) => k = {}
                /\ \A j \in 0..(IF Len(T.lv) > 1 THEN Len(T.lv[2]) - 1 ELSE -1) :
                     (<<2, j>> \in k) <=> (Flagged(f, 2 * j) \/ Flagged(f, 2 * j + 1))
RootFixed == [][Has => /\ st'.trees[1].lv = T.lv /\ st'.trees[1].kept \subseteq T.kept]_<<st, hist>>
Complete == Len(hist) = Trims + 1
Emit == (Complete /\ TLCGet("distinct") % EmitEvery = 0) =>
            PrintT("PROG " \o ToJson(<<S("Hashes", Len(st.hs), << >>, << >>)>> \o hist))
=============================================================================
