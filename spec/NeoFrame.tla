------------------------------ MODULE NeoFrame ------------------------------
(***************************************************************************)
(* What calls leave alone, over the whole library.  A program calls it     *)
(* step by step; the value every step gave or was given is kept and looked *)
(* at again after every later step.  Each step names the operation, the    *)
(* steps its arguments come from, and its result; alone[n] is the result   *)
(* the same step has in a process that runs nothing but the steps it is    *)
(* made of.  Values are observed as texts, equal when nothing differs.     *)
(*                                                                         *)
(* State: held - the values kept, env - the settings of the process,       *)
(* alone - the results to expect, said - calls and their answers so far.   *)
(***************************************************************************)
EXTENDS Sequences, Integers
\* operations that change the object they are called on, their first argument, and nothing else
Alters(op) == op \in {
    "Poke", "PokeList", "PushList", "CloseW", "CloseR",             \* the program's own, on its byte arrays, lists and streams
    "WriteByte", "WriteBytes", "WriteBytesHex", "WriteVarInt", "WriteVarBytes", "WriteVarString", "WriteFixedString", "WriteUInt160",
    "WriteUInt256", "WriteUInt32", "WriteUInt64", "WriteBool", "WriteFixed8", "WriteSerializableArray", "WriteHashes", "WritePoint", "WriteUInt",
    "ReadByte", "ReadBytes", "SafeReadBytes", "ReadVarInt", "ReadVarBytes", "ReadVarString", "ReadUInt160", "ReadUInt256", "ReadUInt32", "ReadUInt64",
    "ReadBool", "ReadFixed8", "ReadFixedString", "ReadPoint", "ReadArray160", "ReadArray256", "Trim",
    "PushListH", "TrimList", "WriteHashList", "WriteList256", "ReadHashes", "WriteInt16", "WriteInt64", "WriteDouble", "WriteFloat", "ReadInt16",
    "ReadDouble", "ReadString", "ReadChar"}
\* operations that take numbers from the general-purpose generator; where they leave it
\* depends on where it was: ev.other is where a copy that began elsewhere left it
Draws(op) == op \in {"RandomKey", "FVSqrtCQ", "CvDecompress", "CvDecompress1"}
\* the registers of the curve package may be set to the library's curve
EnvOk(op, a, b) == /\ b.curve = a.curve \/ b.curve = "secp256r1"
                   /\ b.random = a.random \/ Draws(op)
                   /\ b.decimal = a.decimal
                   /\ b.process = a.process

Said(said, key) == {i \in 1..Len(said) : said[i][1] = key}
Judge(st, ev) ==
    IF ev.op = "Start" THEN <<"", [prop |-> ev.prop, held |-> << >>, env |-> ev.env, alone |-> ev.alone, said |-> << >>]>>
    ELSE
    LET n == Len(st.held) + 1
        key == <<ev.op, [i \in 1..Len(ev.args) |-> st.held[ev.args[i]]] \o << >>, ev.lit>>
        past == Said(st.said, key)
        touched == {i \in 1..(n - 1) : ev.after[i] # st.held[i] /\ ~(Alters(ev.op) /\ i = ev.args[1])}
        why == IF st.prop = "C31"
               THEN CASE touched # {} -> "a call changed a value it was not made on: " \o ev.op
                      [] ~EnvOk(ev.op, st.env, ev.env) -> "a setting of the process was changed: " \o ev.op
                      [] Draws(ev.op) /\ ev.env.random = ev.other -> "the generator of numbers was set, not drawn from: " \o ev.op
                      [] OTHER -> ""
               ELSE CASE ev.res # st.alone[n] -> "the result depends on what was done before: " \o ev.op
                      [] (\E i \in past : st.said[i][2] # ev.res)  -> "the same call has two answers: " \o ev.op
                      [] OTHER -> ""
    IN <<why, [prop |-> st.prop, held |-> ev.after, env |-> ev.env, alone |-> st.alone, said |-> IF past = {} THEN Append(st.said, <<key, ev.res>>) ELSE st.said]>>
=============================================================================
