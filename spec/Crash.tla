-------------------------------- MODULE Crash --------------------------------
(***************************************************************************)
(* Design: why a process that is killed while it updates an existing table   *)
(* only affects the blocks it was writing. The file has a header and a place *)
(* of fixed size for every (block, column); a block is written in place, in  *)
(* steps that can be interrupted after any of them. The part of the header   *)
(* that readers need is not written again once the block size is fixed.      *)
(*                                                                           *)
(* Bug: "header"   the header is emptied when the table is opened to be      *)
(*                 updated, and filled in when it is closed                  *)
(*      "whole"    closing writes all blocks again                           *)
(*      "row"      the places of all columns of a block are written together *)
(*      "truncate" opening the file to update it empties it                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS NBlocks, NCols, MaxOps, Bug
Places == (1..NBlocks) \X (1..NCols)
Torn == -1
VARIABLES file, header,   \* what is on disk
          base,           \* what was on disk when the table was opened
          mem,            \* what is to be written: place -> value or 0
          job,            \* the places that are being written, and how far: <<set, step>>
          begun,          \* places the user wrote to since the table was opened
          mode, n
vars == <<file, header, base, mem, job, begun, mode, n>>
None == [p \in Places |-> 0]
Idle == [todo |-> {}, vals |-> None]
Init == /\ file = [p \in Places |-> 1] /\ header = TRUE /\ base = file /\ mem = None /\ job = Idle
        /\ begun = {} /\ mode = "closed" /\ n = 0
Open == /\ mode = "closed" /\ base' = file /\ begun' = {} /\ mode' = "rw"
        /\ file' = IF Bug = "truncate" THEN [p \in Places |-> Torn] ELSE file
        /\ mem' = IF Bug = "truncate" THEN file ELSE None
        /\ header' = (Bug # "header") /\ UNCHANGED <<job, n>>
Put  == /\ mode = "rw" /\ n < MaxOps /\ job.todo = {} /\ n' = n + 1
        /\ \E p \in Places : mem' = [mem EXCEPT ![p] = n + 2] /\ begun' = begun \cup {p}
        /\ UNCHANGED <<file, header, base, job, mode>>
(* a block goes to the file, at a moment that the encoding threads choose *)
Start == /\ mode \in {"rw", "closing"} /\ job.todo = {}
         /\ \E p \in Places : /\ mem[p] # 0
              /\ job' = [todo |-> IF Bug = "row" THEN {q \in Places : q[1] = p[1]} ELSE {p},
                         vals |-> [q \in Places |-> IF q = p THEN mem[p] ELSE IF mem[q] # 0 THEN mem[q] ELSE file[q]]]
          /\ mem' = [q \in Places |-> IF q \in job'.todo THEN 0 ELSE mem[q]]
         /\ UNCHANGED <<file, header, base, begun, mode, n>>
Step == \E p \in job.todo :
          /\ IF file[p] # Torn /\ (file[p] # job.vals[p] \/ Bug \in {"whole", "row"})
             THEN file' = [file EXCEPT ![p] = Torn] /\ UNCHANGED job
             ELSE file' = [file EXCEPT ![p] = job.vals[p]] /\ job' = [job EXCEPT !.todo = @ \ {p}]
          /\ UNCHANGED <<header, base, mem, begun, mode, n>>
Close == /\ mode = "rw" /\ mode' = "closing"
         /\ mem' = IF Bug = "whole" THEN [p \in Places |-> IF mem[p] = 0 THEN file[p] ELSE mem[p]] ELSE mem
         /\ UNCHANGED <<file, header, base, job, begun, n>>
Closed == /\ mode = "closing" /\ job.todo = {} /\ mem = None /\ mode' = "closed" /\ header' = TRUE
          /\ UNCHANGED <<file, base, mem, job, begun, n>>
Next == Open \/ Put \/ Start \/ Step \/ Close \/ Closed
Spec == Init /\ [][Next]_vars
(* what another process would find if this one were killed now *)
AfterKill == /\ header
             /\ \A p \in Places \ begun : file[p] = base[p]
Stored == mode = "closed" => \A p \in Places : file[p] # Torn
=============================================================================
