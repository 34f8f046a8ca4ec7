-------------------------------- MODULE Faults --------------------------------
(***************************************************************************)
(* The storage file when the operating system refuses operations. Blocks go *)
(* through a stream that holds at most one of them (buf) before it reaches  *)
(* the disk, and that remembers that an operation was refused (bad). told:   *)
(* an operation threw, or the process ended, so that the user knows.         *)
(* As long as the user was told nothing, everything is as if nothing was     *)
(* refused.                                                                 *)
(* Bug = "tail": what is in the stream is written when the stream is closed, *)
(* of which nobody looks at the result. "zeros": reading the last block      *)
(* takes every failure for a block that was not written yet, and forgets it. *)
(* "skip": nobody looks at the result of a write.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS NBlocks, MaxOps, Bug
VARIABLES disk, buf, bad, want, told, phase, seen, ops
vars == <<disk, buf, bad, want, told, phase, seen, ops>>
Blocks == 1..NBlocks
Last == IF \E b \in Blocks : want[b] # 0 THEN CHOOSE b \in Blocks : want[b] # 0 /\ \A x \in Blocks : x > b => want[x] = 0 ELSE 0
Init == /\ disk = [b \in Blocks |-> 0] /\ buf = <<>> /\ bad = FALSE /\ want = disk /\ told = FALSE /\ phase = "open" /\ seen = <<>> /\ ops = 0
(* a result of bringing the stream to the disk: <<disk, refused>> *)
Flushed(d, f) == IF f = <<>> THEN {<<d, FALSE>>} ELSE {<<[d EXCEPT ![f[1]] = f[2]], FALSE>>, <<d, TRUE>>}
Write == \E b \in Blocks :
  LET v == ops + 1 IN
  /\ phase # "closed" /\ ~told /\ want' = [want EXCEPT ![b] = v]
  /\ IF bad /\ Bug = "skip" THEN UNCHANGED <<disk, buf, bad, told>>
     ELSE IF bad THEN told' = TRUE /\ UNCHANGED <<disk, buf, bad>>
     ELSE \E x \in Flushed(disk, buf) :
        IF x[2] THEN bad' = TRUE /\ told' = (Bug # "skip") /\ disk' = x[1] /\ buf' = <<>>
        ELSE IF Bug = "tail" THEN disk' = x[1] /\ buf' = <<b, v>> /\ UNCHANGED <<bad, told>>
        ELSE \E y \in Flushed(x[1], <<b, v>>) : disk' = y[1] /\ buf' = <<>> /\ bad' = y[2] /\ told' = (y[2] /\ Bug # "skip")
  /\ ops' = ops + 1 /\ seen' = <<>> /\ UNCHANGED phase
Read == \E b \in Blocks :
  /\ phase # "closed" /\ ~told /\ b <= Last
  /\ \E x \in Flushed(disk, buf), refused \in BOOLEAN :
       LET fails == bad \/ x[2] \/ refused IN
       /\ disk' = x[1] /\ buf' = <<>>
       /\ IF ~fails THEN seen' = <<b, x[1][b]>> /\ UNCHANGED <<bad, told>>
          ELSE IF Bug = "zeros" /\ b = Last THEN seen' = <<b, 0>> /\ bad' = FALSE /\ UNCHANGED told
          ELSE seen' = <<>> /\ bad' = TRUE /\ told' = TRUE
  /\ ops' = ops + 1 /\ UNCHANGED <<want, phase>>
Close == /\ phase # "closed" /\ ~told /\ phase' = "closed" /\ buf' = <<>> /\ bad' = FALSE /\ seen' = <<>>
         /\ \E x \in Flushed(disk, buf) : disk' = x[1]
         /\ UNCHANGED <<want, told, ops>>
Open == phase = "closed" /\ ~told /\ phase' = "reopened" /\ seen' = <<>> /\ UNCHANGED <<disk, buf, bad, want, told, ops>>
Next == (ops < MaxOps /\ (Write \/ Read)) \/ Close \/ Open
Spec == Init /\ [][Next]_vars
(* nothing goes wrong behind the back of the user *)
Right == (~told /\ seen # <<>>) => seen[2] = want[seen[1]]
Stored == (~told /\ phase = "closed") => disk = want
=============================================================================
