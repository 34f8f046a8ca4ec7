------------------------------ MODULE SeedTrace ------------------------------
(* Judges the files of histories that were written several times: with a static seed they are the same each time (Reproducible: what is in
   the file follows from the writes), without it (and with enough samples to dither) never. An output is the digests of the files after every
   session. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES seen, l
E == Trace[l]
Init == l = 1 /\ seen = {}
OK == /\ E.res = "end"
      /\ IF E.static THEN \A x \in seen : x = E.out
         ELSE E.dithered => \A x \in seen : x # E.out
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.e = "hist" THEN seen' = {} ELSE (OK = TRUE) /\ seen' = seen \cup {E.out}
Spec == Init /\ [][Next]_<<seen, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
