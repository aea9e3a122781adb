------------------------------ MODULE MCRandom ------------------------------
(***************************************************************************)
(* All histories of generations and of events that change the weak sources *)
(* for designs of key generators, in small: a key has W bits.  For every   *)
(* generation the variants are formed as in the recorded executions, by    *)
(* turning over each bit taken during it.  Checked: the design that takes  *)
(* W fresh bits each time passes every time (FreshPasses); TLC must find   *)
(* each of the other designs refuted by some history (Refuted), else the   *)
(* histories and the judgement would not tell the designs apart.  The      *)
(* histories are printed as programs.                                      *)
(***************************************************************************)
EXTENDS NeoRandom, Json
CONSTANTS W, Depth, EmitEvery
Designs == <<"fresh", "generator", "half", "pool", "onceseeded", "cached", "clocked", "masked", "forkcopy">>
Bits(n) == [1..n -> {0, 1}]
\* mem: what the design keeps inside the process; seed: state of the generator
VARIABLES d, mem, seed, clock, hist, verdicts
vars == <<d, mem, seed, clock, hist, verdicts>>
Taken(g, m) == CASE g \in {"fresh", "clocked", "masked"} -> W
                 [] g = "generator" -> 0
                 [] g = "half" -> W - 1
                 [] g = "pool" -> IF m = << >> THEN 2 * W ELSE 0
                 [] g \in {"onceseeded", "forkcopy", "cached"} -> IF m = << >> THEN W ELSE 0
Mix(s, b) == [i \in 1..Len(b) |-> (b[i] + (s \div (2 ^ (i - 1)))) % 2] \o << >>
\* <<key, what is kept>> from the bits taken
Make(g, m, s, c, b) ==
    CASE g = "fresh" -> <<Mix(s + c, b), << >>>>
      [] g = "generator" -> <<Mix(s, [i \in 1..W |-> 0]), << >>>>
      [] g = "half" -> <<Append(b, (s + c) % 2), << >>>>
      [] g = "pool" -> IF m = << >> THEN <<Take(b, W), Drop(b, W)>> ELSE <<m, << >>>>
      [] g = "onceseeded" -> IF m = << >> THEN <<b, b>> ELSE LET n == Mix(1, m) IN <<n, n>>
      [] g = "cached" -> IF m = << >> THEN <<b, b>> ELSE <<m, m>>
      [] g = "clocked" -> IF c % 2 = 1 THEN <<Mix(s, [i \in 1..W |-> 0]), << >>>> ELSE <<b, << >>>>
      [] g = "masked" -> <<[i \in 1..W |-> IF i = W THEN 1 ELSE b[i]] \o << >>, << >>>>
      [] g = "forkcopy" -> IF m = << >> THEN <<b, << >>>> ELSE <<m, << >>>>
Flip(b, i) == [b EXCEPT ![i] = 1 - @]
Verdict(g, m, s, c, b) ==
    LET base == Make(g, m, s, c, b)[1]
        vs == [i \in 1..Len(b) |-> Make(g, m, s, c, Flip(b, i))[1]] \o << >>
    IN Enough(base, vs, W)
Init == d \in 1..Len(Designs) /\ mem = << >> /\ seed = 0 /\ clock = 0 /\ hist = << >> /\ verdicts = TRUE
Gen == /\ \E b \in Bits(Taken(Designs[d], mem)) :
             /\ mem' = Make(Designs[d], mem, seed, clock, b \o << >>)[2]
             /\ verdicts' = Verdict(Designs[d], mem, seed, clock, b \o << >>)
       /\ seed' = (seed + 1) % 4
       /\ \E x \in Sources : hist' = Append(hist, x)
       /\ UNCHANGED <<d, clock>>
Other == \/ hist' = Append(hist, "Seed") /\ seed' = 0 /\ UNCHANGED <<d, mem, clock, verdicts>>
         \/ hist' = Append(hist, "Tick") /\ clock' = (clock + 1) % 2 /\ UNCHANGED <<d, mem, seed, verdicts>>
         \* the child goes on; what the parent kept it may have used itself
         \/ hist' = Append(hist, "Fork") /\ mem' = (IF Designs[d] = "forkcopy" THEN [i \in 1..W |-> 0] \o << >> ELSE mem) /\ UNCHANGED <<d, seed, clock, verdicts>>
         \/ hist' = Append(hist, "Draw") /\ UNCHANGED <<d, mem, seed, clock, verdicts>>
Next == Len(hist) < Depth /\ (Gen \/ Other)
FreshPasses == Designs[d] = "fresh" => verdicts
\* bookkeeping: which designs were refuted (one worker)
Note == verdicts \/ (TLCGet(d) = 1) \/ TLCSet(d, 1)
ASSUME \A i \in 1..Len(Designs) : TLCSet(i, 0)
Refuted == \A i \in 2..Len(Designs) : TLCGet(i) = 1
Code == Len(hist) + 3 * Cardinality({i \in 1..Len(hist) : hist[i] = "Fork"}) + 5 * Cardinality({i \in 1..Len(hist) : hist[i] = "random_key"})
\* the history alone is the program: printed for one design
Emit == Designs[d] = "generator" /\ Len(hist) = Depth /\ hist[Depth] \in Sources /\ Code % EmitEvery = 0 => PrintT("PROG " \o ToJson(hist))
=============================================================================
