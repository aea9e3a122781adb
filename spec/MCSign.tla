------------------------------- MODULE MCSign -------------------------------
(***************************************************************************)
(* All histories of first use, key construction, signing, verification,    *)
(* creation of the default instance, foreign reconfiguration and restart.  *)
(* Every operation is two steps, the setting of the shared curve and the   *)
(* computation, and several callers (Procs) may be between the two at the  *)
(* same time.  Checked: whatever the history, a computation that reads the *)
(* shared curve reads the NEO curve.  With Sets = the operations that set  *)
(* it; leaving one out violates the invariant (that is what the library    *)
(* did before the repair of C20).                                          *)
(***************************************************************************)
EXTENDS NeoSign, TLC, Json, FiniteSets
CONSTANTS Depth, Procs, Sets, EmitEvery, Foreigns
Ops == {"NewKey", "Default", "Sign", "Verify33", "Verify64", "VerifyPt", "Restart"} \cup (IF Foreigns THEN {"Foreign"} ELSE {})
\* backend, the shared setting; pc: operation a caller is in, "" if none; hist
VARIABLES backend, pc, hist, read
vars == <<backend, pc, hist, read>>
Idle(p) == pc[p] = ""
Init == backend = "btc" /\ pc = [p \in Procs |-> ""] /\ hist = << >> /\ read = "neo"
Start(p, op) ==
    /\ Idle(p) /\ Len(hist) < Depth
    /\ op \in {"Restart", "Foreign"} => \A q \in Procs : Idle(q)       \* those end or precede everything
    \* verification needs something to verify
    /\ op = "VerifyPt" => \E i \in 1..Len(hist) : hist[i] = "NewKey" /\ ~\E j \in i..Len(hist) : hist[j] = "Restart"
    /\ hist' = Append(hist, op)
    /\ backend' = IF op \in Sets \cup {"Restart", "Foreign"} THEN After(op, backend) ELSE backend
    /\ pc' = [pc EXCEPT ![p] = IF op \in ReadsBackend THEN op ELSE ""]
    /\ UNCHANGED read
Compute(p) == /\ ~Idle(p)
              /\ read' = backend
              /\ pc' = [pc EXCEPT ![p] = ""]
              /\ UNCHANGED <<backend, hist>>
Next == \E p \in Procs : Compute(p) \/ \E op \in Ops : Start(p, op)
Independent == read = "neo"
Emit == (Cardinality(Procs) = 1 /\ Len(hist) = Depth /\ (\A p \in Procs : Idle(p)) /\ TLCGet("distinct") % EmitEvery = 0) => PrintT("PROG " \o ToJson(hist))
=============================================================================
