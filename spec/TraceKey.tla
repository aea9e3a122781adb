---------------------------- MODULE TraceKey ----------------------------
(* Judges recorded executions of key, text and hash histories, event by event. *)
EXTENDS NeoKey, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = JInit
Next == /\ l <= Len(Trace)
        /\ LET j == Judge(st, Trace[l])
           IN /\ st' = j[2]
              /\ l' = l + 1
              /\ IF j[1] = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o j[1])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
