----------------------------- MODULE ToolsTrace ------------------------------
(* Judges recorded runs of one of the tools (JUDGE) on measurement sets: the state is the measurement set. *)
EXTENDS Tools, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ms, l
E == Trace[l]
Init == l = 1 /\ ms = [rows |-> <<>>]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ E.e = "mk" /\ ms' = E.s
           \/ E.e \in {"dscompress", "decompress"} /\ E.e # IOEnv.JUDGE /\ ms' = E.s
           \/ E.e = "dscompress" /\ E.e = IOEnv.JUDGE /\ (CompressOK(ms, E.cmd, E.rc, E.s) = TRUE) /\ E.left = 0 /\ ms' = E.s
           \/ E.e = "decompress" /\ E.e = IOEnv.JUDGE /\ (DecompressOK(ms, E.rc, E.s) = TRUE) /\ E.left = 0 /\ ms' = E.s
Spec == Init /\ [][Next]_<<ms, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
