------------------------------- MODULE MCPar --------------------------------
(***************************************************************************)
(* All interleavings of threads over the one thing they do share, the      *)
(* registers of the package that computes on the curve, for designs of     *)
(* their use, in small.  A thread sets the registers one by one, computes  *)
(* (reads all of them) some times and leaves; what it reads must be its    *)
(* own curve (Isolated).  "set" is the library's design: set every         *)
(* register, then compute.  TLC must refute the others: restoring what was *)
(* there before, setting only if the first register differs, a work area   *)
(* common to all threads, and setting once for all threads - and needs no  *)
(* more than two preemptions for any of them, one where only a look at the *)
(* first register is missing or the work area is shared (Refuted): which   *)
(* is why the schedules tried on the code place one preemption at every    *)
(* line and pairs of them on top.  The interleavings are printed.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Parts, Uses, EmitEvery
Designs == <<"set", "restore", "check", "scratch", "once">>
VARIABLES d, reg, work, done, pc, kept, good, sched, pre
Mine == "neo"
Last == Parts + Uses
Init == /\ d \in 1..Len(Designs)
        /\ reg = [i \in 1..Parts |-> "other"] /\ work = 0 /\ done = FALSE
        /\ pc = [t \in 1..Threads |-> 1]
        /\ kept = [t \in 1..Threads |-> [i \in 1..Parts |-> "other"]]
        /\ good = TRUE /\ sched = << >> /\ pre = 0
Skips(t) == pc[t] = 1 /\ \/ Designs[d] = "check" /\ reg[1] = Mine
                         \/ Designs[d] = "once" /\ done
Sees == CASE Designs[d] \in {"set", "restore", "check", "once"} -> \A i \in 1..Parts : reg[i] = Mine
          [] OTHER -> TRUE
Step(t) ==
    /\ sched' = Append(sched, t)
    /\ pre' = IF sched # << >> /\ sched[Len(sched)] # t /\ pc[sched[Len(sched)]] <= Last THEN pre + 1 ELSE pre
    /\ UNCHANGED d
    /\ IF pc[t] <= Parts /\ ~Skips(t)
       THEN /\ reg' = [reg EXCEPT ![pc[t]] = Mine]
            /\ kept' = IF pc[t] = 1 THEN [kept EXCEPT ![t] = reg] ELSE kept
            /\ work' = t
            /\ done' = TRUE
            /\ pc' = [pc EXCEPT ![t] = @ + 1]
            /\ UNCHANGED good
       ELSE LET p == IF Skips(t) THEN Parts + 1 ELSE pc[t]
            IN /\ good' = (good /\ Sees /\ (Designs[d] = "scratch" => work = t))
               /\ pc' = [pc EXCEPT ![t] = p + 1]
               /\ reg' = IF Designs[d] = "restore" /\ p = Last THEN kept[t] ELSE reg
               /\ UNCHANGED <<kept, work, done>>
Next == \E t \in 1..Threads : pc[t] <= Last /\ Step(t)
Isolated == Designs[d] = "set" => good
ASSUME \A i \in 1..Len(Designs) : TLCSet(i, 99)
Note == good \/ TLCGet(d) <= pre \/ TLCSet(d, pre)
Refuted == \A i \in 2..Len(Designs) : TLCGet(i) <= IF Designs[i] = "restore" THEN 2 ELSE 1
Code == Cardinality({i \in 2..Len(sched) : sched[i] # sched[i - 1]}) + 3 * Cardinality({i \in 1..Len(sched) : i % 2 = 0 /\ sched[i] = 1}) + 5 * Cardinality({i \in 1..(Len(sched) \div 2) : sched[i] = 1})
Emit == Designs[d] = "set" /\ (\A t \in 1..Threads : pc[t] > Last) /\ Code % EmitEvery = 0 => PrintT("PROG " \o ToJson(sched))
=============================================================================
