----------------------------- MODULE NeoMerkle -----------------------------
(***************************************************************************)
(* Merkle trees as a machine.                                              *)
(*                                                                         *)
(* State: hs, the hash objects of the caller (their bytes), which any      *)
(* number of trees share, and trees, each [lv |-> its levels, leaves       *)
(* first, kept |-> the nodes <<level, index>> that still have children].   *)
(* Building adds a tree, trimming shrinks kept of one tree; nothing else   *)
(* ever changes, in particular no hash.                                    *)
(***************************************************************************)
EXTENDS Big, Bytes, Prims, FiniteSets

Combine(a, b) == Hash256(a \o b)
At(level, i) == level[Min(i, Len(level))]          \* an odd last element is paired with itself
\* (\o << >>: TLC evaluates the sequence once)
Up(level) == [i \in 1..((Len(level) + 1) \div 2) |-> Combine(level[2 * i - 1], At(level, 2 * i))] \o << >>
RECURSIVE Levels(_)
Levels(level) == IF Len(level) = 1 THEN <<level>> ELSE <<level>> \o Levels(Up(level))
Depth(lv) == Len(lv)
RootHash(lv) == lv[Len(lv)][1]
Full(lv) == UNION {{<<l, i>> : i \in 0..(Len(lv[l]) - 1)} : l \in 2..Len(lv)}

Flagged(flags, i) == i < Len(flags) /\ flags[i + 1] # 0
\* the pairs of sibling leaves below node i of level l
PairsBelow(lv, l, i) == {j \in 0..(Len(lv[2]) - 1) : j \div (2^(l - 2)) = i}
KeptAfter(lv, kept, flags) ==
    {n \in kept : \E j \in PairsBelow(lv, n[1], n[2]) :
                      <<2, j>> \in kept /\ (Flagged(flags, 2 * j) \/ Flagged(flags, 2 * j + 1))}

\* the same by recursion from the leaves, one level at a time (checked equal in MCMerkle)
RECURSIVE KeptRec(_, _, _, _)
KeptRec(lv, kept, flags, l) ==
    IF l = 2 THEN {n \in kept : n[1] = 2 /\ (Flagged(flags, 2 * n[2]) \/ Flagged(flags, 2 * n[2] + 1))}
    ELSE LET below == KeptRec(lv, kept, flags, l - 1)
         IN below \cup {n \in kept : n[1] = l /\ (<<l - 1, 2 * n[2]>> \in below \/ <<l - 1, 2 * n[2] + 1>> \in below)}

\* hashes of the nodes without children that are reachable from node i of level l
RECURSIVE Frontier(_, _, _, _)
Frontier(lv, kept, l, i) ==
    IF <<l, i>> \notin kept THEN {lv[l][i + 1]}
    ELSE Frontier(lv, kept, l - 1, 2 * i)
         \cup (IF 2 * i + 1 < Len(lv[l - 1]) THEN Frontier(lv, kept, l - 1, 2 * i + 1) ELSE {})

Tree(lv, kept) == [lv |-> lv, kept |-> kept]
MState(hs, trees) == [hs |-> hs, trees |-> trees]
Out(r, st) == [r |-> r, st |-> st]
VHash(h) == Val("uint", <<32>> \o h, << >>)

\* refs: indices into hs
MSpec(st, op, t, refs, flags) ==
    LET leaves == [i \in 1..Len(refs) |-> st.hs[refs[i]]] \o << >>
    IN CASE op = "Build" ->
              IF refs = << >> THEN Out(VErr, st)
              ELSE LET lv == Levels(leaves) IN Out(VNone, [st EXCEPT !.trees = Append(st.trees, Tree(lv, Full(lv)))])
         [] op = "ComputeRoot" -> Out(IF refs = << >> THEN VErr ELSE VHash(RootHash(Levels(leaves))), st)
         [] op = "Leaves" ->
              LET tr == st.trees[t] IN Out(Frontier(tr.lv, tr.kept, Len(tr.lv), 0), st)
         [] op = "Trim" ->
              Out(VNone, [st EXCEPT !.trees[t].kept = KeptAfter(st.trees[t].lv, st.trees[t].kept, flags)])

-----------------------------------------------------------------------------
\* Verdict.  ev.trees: for every tree its depth and the nodes reachable from
\* the root: v = <<leaf?, root?, parent link right?, right child is the left
\* child?>>, c = <<hash, left, right>>; ev.hs: the bytes of the caller's hash
\* objects; ev.refs: the list handed over, as it is afterwards.
RECURSIVE NodeOk(_, _, _, _, _)
NodeOk(nd, lv, kept, l, i) ==
    LET has == <<l, i>> \in kept
        single == 2 * i + 1 >= IF l > 1 THEN Len(lv[l - 1]) ELSE 0
        b(x) == IF x THEN 1 ELSE 0
    IN IF nd.k # "node" \/ nd.c[1] # VHash(lv[l][i + 1]) THEN "a node has the wrong hash"
       ELSE IF nd.v[3] # 1 \/ nd.v[2] # b(l = Len(lv)) THEN "a node is not linked to its parent"
       ELSE IF has # (Len(nd.c) > 1) THEN IF has THEN "a branch is missing from the tree" ELSE "a branch was not trimmed"
       ELSE IF nd.v[1] # b(~has) THEN "leaf test wrong"
       ELSE IF ~has THEN ""
       ELSE IF nd.v[4] # b(single) \/ Len(nd.c) # (IF single THEN 2 ELSE 3) THEN "wrong children"
       ELSE LET w == NodeOk(nd.c[2], lv, kept, l - 1, 2 * i)
            IN IF w # "" \/ single THEN w ELSE NodeOk(nd.c[3], lv, kept, l - 1, 2 * i + 1)

TreeOk(o, tr) == IF o.v # <<Len(tr.lv)>> THEN "wrong depth" ELSE NodeOk(o.c[1], tr.lv, tr.kept, Len(tr.lv), 0)
RECURSIVE TreesOk(_, _, _)
TreesOk(os, trees, n) == IF n = 0 THEN "" ELSE LET w == TreeOk(os[n], trees[n]) IN IF w # "" THEN w ELSE TreesOk(os, trees, n - 1)

\* r lists hashes: each once, as a set equal to hset
ListsSet(r, hset) == /\ r.k = "list"
                     /\ {r.c[i] : i \in 1..Len(r.c)} = {VHash(h) : h \in hset}
                     /\ Len(r.c) = Cardinality(hset)

Judge(st, ev) ==
    IF ev.op = "Hashes" THEN <<"", MState([i \in 1..Len(ev.a) |-> ev.a[i].v] \o << >>, << >>)>>
    ELSE LET refs == ev.refs
             out == MSpec(st, ev.op, ev.t, refs, ev.flags)
             why == IF ev.r.k = "timeout" THEN "operation does not end"
                    ELSE IF ev.op = "Leaves" THEN (IF ListsSet(ev.r, out.r) THEN "" ELSE "wrong leaves listed")
                    ELSE IF IsErr(out.r) THEN (IF IsErr(ev.r) THEN "" ELSE "empty list not refused")
                    ELSE IF IsErr(ev.r) THEN "valid operation refused"
                    ELSE IF ev.r # out.r THEN "wrong root" ELSE ""
             n == Len(out.st.trees)
             heap == IF ev.hs # st.hs THEN "a hash of the caller was modified"
                     ELSE IF ev.after # ev.refs THEN "the caller's list was modified"
                     ELSE IF Len(ev.trees) # n THEN "a tree is missing"
                     ELSE TreesOk(ev.trees, out.st.trees, n)
         IN <<IF why # "" THEN why ELSE heap, out.st>>
=============================================================================
