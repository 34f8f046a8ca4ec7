----------------------------- MODULE ReadsAside ------------------------------
(***************************************************************************)
(* Columns of one storage manager share a file: a block that any column has   *)
(* written makes the file longer. Reading a row of a block that the file does  *)
(* not have gives zero and leaves the block that is being filled alone; reading *)
(* any other block hands that block over for encoding first. Going to a block    *)
(* that the file has loads its rows, and otherwise starts with missing rows,      *)
(* which are encoded differently. The test for "the file has the block" is:      *)
(* Test = "file"   the length of the file as it is now: depends on how fast     *)
(*                 the encoding threads are                                   *)
(* Test = "mixed"  reads use the rule of "own", loads the rule of "file"          *)
(* Test = "own"    the block was in the file when the table was opened, or is     *)
(*                 not after the blocks that this column handed over; waits until *)
(*                 the file is long enough                                    *)
(* Two runs with the same calls are put next to each other: with "own" they      *)
(* hand over the same blocks in the same order, started in the same way, for      *)
(* every speed of the threads.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Cols, NBlocks, MaxOps, Test, AtOpen
VARIABLES cur, changed, loaded, hist, pend, len, ops
\* each but ops: run (1 or 2) -> ...
vars == <<cur, changed, loaded, hist, pend, len, ops>>
Runs == 1..2
B == 1..NBlocks
All(v) == [r \in Runs |-> [c \in Cols |-> v]]
Init == /\ cur = All(0) /\ changed = All(FALSE) /\ loaded = All(FALSE) /\ hist = All(<<>>) /\ pend = All({})
        /\ len = [r \in Runs |-> AtOpen] /\ ops = 0
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Own(r, c) == MaxOf({AtOpen} \cup {hist[r][c][i].blk : i \in DOMAIN hist[r][c]})
\* The caller waits for the block that it needs itself
LenAfterWait(r, c, b) == IF b \in pend[r][c] /\ b > len[r] THEN b ELSE len[r]
HasForRead(r, c, b) == IF Test = "file" THEN b <= LenAfterWait(r, c, b) ELSE b <= Own(r, c)
\* The block that is left is handed over before the next one is loaded
OwnLeaving(r, c, leaving) == MaxOf({Own(r, c), leaving})
HasForLoad(r, c, b, leaving) == IF Test = "own" THEN b <= OwnLeaving(r, c, leaving) ELSE b <= LenAfterWait(r, c, b)
Op(c, b, put) ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ LET move(r) == b # cur[r][c] /\ (put \/ HasForRead(r, c, b))
         store(r) == move(r) /\ changed[r][c]
         leaving(r) == IF store(r) THEN cur[r][c] ELSE 0
         long(r) == move(r) /\ HasForLoad(r, c, b, leaving(r))
         \* a gap: the caller waits until a later block of this column is written
         gap(r) == Test = "own" /\ long(r) /\ LenAfterWait(r, c, b) < b
     IN /\ cur' = [r \in Runs |-> [cur[r] EXCEPT ![c] = IF move(r) THEN b ELSE @]]
        /\ loaded' = [r \in Runs |-> [loaded[r] EXCEPT ![c] = IF move(r) THEN long(r) ELSE @]]
        /\ hist' = [r \in Runs |-> [hist[r] EXCEPT ![c] = IF store(r) THEN Append(@, [blk |-> cur[r][c], ld |-> loaded[r][c]]) ELSE @]]
        /\ pend' = [r \in Runs |-> [pend[r] EXCEPT ![c] = IF gap(r) THEN {} ELSE (IF b # cur[r][c] THEN @ \ {b} ELSE @) \cup (IF store(r) THEN {cur[r][c]} ELSE {})]]
        /\ len' = [r \in Runs |-> IF gap(r) THEN MaxOf({len[r], leaving(r)} \cup pend[r][c]) ELSE IF b # cur[r][c] THEN LenAfterWait(r, c, b) ELSE len[r]]
        /\ changed' = [r \in Runs |-> [changed[r] EXCEPT ![c] = put \/ (@ /\ ~move(r))]]
Finish == \E r \in Runs, c \in Cols : \E b \in pend[r][c] :
  /\ pend' = [pend EXCEPT ![r][c] = @ \ {b}] /\ len' = [len EXCEPT ![r] = IF b > @ THEN b ELSE @] /\ UNCHANGED <<cur, changed, loaded, hist, ops>>
Next == Finish \/ \E c \in Cols, b \in B, put \in BOOLEAN : Op(c, b, put)
Spec == Init /\ [][Next]_vars
SameHandedOver == hist[1] = hist[2] /\ cur[1] = cur[2] /\ loaded[1] = loaded[2]
(* zero is only answered for a block that this column never handed over, and that was not in the file *)
NothingHidden == \A r \in Runs, c \in Cols : \A b \in pend[r][c] : b <= Own(r, c)
(* what is loaded is in the file *)
LoadedIsThere == Test = "own" => \A r \in Runs, c \in Cols : loaded[r][c] => cur[r][c] <= len[r]
=============================================================================
