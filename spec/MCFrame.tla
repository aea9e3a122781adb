------------------------------ MODULE MCFrame -------------------------------
(***************************************************************************)
(* All short histories of calls on a library in small: objects hold one of *)
(* two contents; a call makes an object from another, asks one, or alters  *)
(* one.  For the design "pure" every object keeps the content it should    *)
(* have, every answer is the one its object's content decides, and the     *)
(* setting stays (Frame).  TLC must refute: objects that share what they   *)
(* are made from, answers remembered by object or only by kind, asking     *)
(* that alters, a setting that asking changes and answers depend on, and   *)
(* one accumulator for all objects (Refuted).  Histories are printed.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Steps, Every
Designs == <<"pure", "alias", "memo", "kind", "leak", "setting", "pool">>
VARIABLES d, cell, cells, want, memo, first, setting, pool, good, hist
D == Designs[d]
Init == /\ d \in 1..Len(Designs)
        /\ cell = << >> /\ cells = << >> /\ want = << >> /\ memo = << >> /\ first = 2 /\ setting = 0 /\ pool = 0
        /\ good = TRUE /\ hist = << >>
N == Len(cell)
Made(c, w, keep) == /\ cell' = Append(cell, keep)
                    /\ cells' = IF keep = Len(cells) + 1 THEN Append(cells, c) ELSE cells
                    /\ want' = Append(want, w)
                    /\ memo' = Append(memo, 2)
Lit(v) == /\ Made(v, v, Len(cells) + 1)
          /\ hist' = Append(hist, [c |-> "lit", a |-> 0])
          /\ UNCHANGED <<first, setting, pool, good>>
\* an object made from another one: here with the same content
Make(i) == /\ hist' = Append(hist, [c |-> "make", a |-> i])
           /\ LET c == IF D = "pool" THEN (cells[cell[i]] + pool) % 2 ELSE cells[cell[i]]
              IN Made(c, want[i], IF D = "alias" THEN cell[i] ELSE Len(cells) + 1)
           /\ pool' = IF D = "pool" THEN (pool + cells[cell[i]]) % 2 ELSE pool
           /\ good' = (good /\ (D = "pool" => pool = 0))
           /\ UNCHANGED <<first, setting>>
Ask(i) == /\ hist' = Append(hist, [c |-> "ask", a |-> i])
          /\ LET now == (cells[cell[i]] + setting) % 2
                 r == CASE D = "memo" /\ memo[i] # 2 -> memo[i]
                        [] D = "kind" /\ first # 2 -> first
                        [] OTHER -> now
             IN /\ good' = (good /\ r = want[i])
                /\ memo' = [memo EXCEPT ![i] = r]
                /\ first' = r
          /\ cells' = IF D = "leak" THEN [cells EXCEPT ![cell[i]] = 1 - @] ELSE cells
          /\ setting' = IF D = "setting" THEN 1 - setting ELSE setting
          /\ UNCHANGED <<cell, want, pool>>
Alter(i) == /\ hist' = Append(hist, [c |-> "alter", a |-> i])
            /\ cells' = [cells EXCEPT ![cell[i]] = 1 - @]
            /\ want' = [want EXCEPT ![i] = 1 - @]
            /\ UNCHANGED <<cell, memo, first, setting, pool, good>>
Next == /\ Len(hist) < Steps
        /\ UNCHANGED d
        /\ \/ \E v \in {0, 1} : N < 3 /\ Lit(v)
           \/ \E i \in 1..N : Make(i) /\ N < 4
           \/ \E i \in 1..N : Ask(i) \/ Alter(i)
Frame == D = "pure" => good /\ \A i \in 1..N : cells[cell[i]] = want[i]
ASSUME \A i \in 1..Len(Designs) : TLCSet(i, 0)
Bad == ~good \/ \E i \in 1..N : cells[cell[i]] # want[i]
Note == ~Bad \/ TLCGet(d) = 1 \/ TLCSet(d, 1)
Refuted == \A i \in 2..Len(Designs) : TLCGet(i) = 1
RECURSIVE Code(_)
Code(k) == IF k = 0 THEN 0 ELSE (Code(k - 1) * 7 + hist[k].a + (CASE hist[k].c = "lit" -> 1 [] hist[k].c = "make" -> 2 [] hist[k].c = "ask" -> 3 [] OTHER -> 5)) % 10007
Emit == D = "pure" /\ Len(hist) = Steps /\ Code(Steps) % Every = 0 => PrintT("PROG " \o ToJson(hist))
=============================================================================
