---------------------------- MODULE Reproducible -----------------------------
(***************************************************************************)
(* Which random numbers are used for which block. The calling thread hands    *)
(* blocks over to a bounded queue; NWorkers encoding threads take blocks from  *)
(* the queue and encode each with the next numbers of a stream of their own.   *)
(* With a static seed the streams of all threads are the same stream.          *)
(* What ends up in the file has to follow from the writes alone, for every     *)
(* schedule.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NBlocks, NWorkers, MaxQueue, MaxWrites,
          Order     \* which block a thread takes: "first" handed over, or the "lowest"
VARIABLES hist,     \* blocks in the order in which they were handed over
          queue,    \* sequence of [blk, wr]; wr is the index in hist
          busy,     \* worker -> item that it encodes, or none
          pos,      \* worker -> numbers taken from its stream
          file      \* block -> <<write, position in the stream>>
vars == <<hist, queue, busy, pos, file>>
B == 1..NBlocks
W == 1..NWorkers
None == [blk |-> 0, wr |-> 0]
Init == hist = <<>> /\ queue = <<>> /\ busy = [w \in W |-> None] /\ pos = [w \in W |-> 0] /\ file = [b \in B |-> <<0, 0>>]
InUse == {queue[i].blk : i \in DOMAIN queue} \cup {busy[w].blk : w \in W}
NBusy == Cardinality({w \in W : busy[w] # None})
(* a block that is still in the queue or being written has to wait *)
Write == \E b \in B : /\ Len(hist) < MaxWrites /\ Len(queue) + NBusy < MaxQueue /\ b \notin InUse
           /\ hist' = Append(hist, b) /\ queue' = Append(queue, [blk |-> b, wr |-> Len(hist) + 1]) /\ UNCHANGED <<busy, pos, file>>
Choice == IF Order = "first" THEN 1 ELSE CHOOSE i \in DOMAIN queue : \A j \in DOMAIN queue : queue[i].blk <= queue[j].blk
Without(s, i) == [k \in 1..Len(s) - 1 |-> IF k < i THEN s[k] ELSE s[k + 1]]
Take == \E w \in W : busy[w] = None /\ queue # <<>> /\ busy' = [busy EXCEPT ![w] = queue[Choice]] /\ queue' = Without(queue, Choice) /\ UNCHANGED <<hist, pos, file>>
Finish == \E w \in W : /\ busy[w] # None /\ pos' = [pos EXCEPT ![w] = @ + 1] /\ file' = [file EXCEPT ![busy[w].blk] = <<busy[w].wr, pos[w] + 1>>]
                       /\ busy' = [busy EXCEPT ![w] = None] /\ UNCHANGED <<hist, queue>>
Next == Write \/ Take \/ Finish
Spec == Init /\ [][Next]_vars
(* the write that is left of each block has the numbers that follow those of the writes before it *)
Last(b) == LET S == {i \in DOMAIN hist : hist[i] = b} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
AtRest == queue = <<>> /\ NBusy = 0
Reproducible == AtRest => \A b \in B : file[b] = <<Last(b), Last(b)>>
(* when blocks are handed over in ascending order, the order of taking makes no difference *)
Ascending == \A i, j \in DOMAIN hist : i < j => hist[i] < hist[j]
ReproducibleAscending == Ascending => Reproducible
=============================================================================
