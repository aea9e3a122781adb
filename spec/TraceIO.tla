------------------------------ MODULE TraceIO ------------------------------
(* Judges a recorded execution of the real readers and writers, event by    *)
(* event, with the operators of NeoIO.                                      *)
EXTENDS NeoIO, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = << >>
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               j == Judge(st, ev)
           IN /\ st' = j[2]
              /\ l' = l + 1
              /\ IF j[1] = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o j[1])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
