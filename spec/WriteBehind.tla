----------------------------- MODULE WriteBehind -----------------------------
(***************************************************************************)
(* How a storage manager stores the blocks of its columns: the calling      *)
(* thread fills one block per column, hands it over to a bounded write      *)
(* cache, and the encoding threads of the column write the blocks to the    *)
(* file. One action per critical section of the implementation:             *)
(*   the mutex of a column protects its cache, its stop flag and its        *)
(*   condition variable; the file has its own mutex.                        *)
(* The time blocks are regular and their size is known.                     *)
(*                                                                          *)
(* The module refines the sequential behaviour that DyscoStore describes:   *)
(* val is what DyscoStore holds for the rows, and Refines relates it to     *)
(* buffer, cache and file.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
  Cols, NBlocks, RPB,    \* columns 1..Cols, blocks 0..NBlocks-1 of RPB rows
  NWorkers,              \* encoding threads of each column
  MaxCache,              \* blocks allowed in the cache of a column
  Tokens, MaxOps,
  Bug                    \* "none", or a deliberate error in the design

C == 1..Cols
Blocks == 0..NBlocks-1
Rows == 0..NBlocks*RPB-1
W == 1..NWorkers
None == -1
BlockOf(r) == r \div RPB
InBlock(r) == r % RPB
ZeroBlock == [i \in 0..RPB-1 |-> 0]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES
  val,       \* ghost: column -> row -> token, as in DyscoStore
  buf,       \* column -> [blk, data, dirty]: the block held decoded in memory
  cache,     \* column -> set of [blk, data, busy]
  file,      \* column -> block -> data
  nFile,     \* number of blocks in the file
  wk,        \* column -> worker -> [pc, blk, data]
  stop,      \* column -> threads are asked to end
  waiting,   \* column -> who waits for the condition variable: subset of W \cup {0}; 0 is the calling thread
  main,      \* the calling thread: [pc, c, r, v, next]
  got,       \* <<expected, returned>> of the last read
  ops
vars == <<val, buf, cache, file, nFile, wk, stop, waiting, main, got, ops>>

Idle == [pc |-> "idle", c |-> 0, r |-> 0, v |-> 0]
Init ==
  /\ val = [c \in C |-> [r \in Rows |-> 0]]
  /\ buf = [c \in C |-> [blk |-> None, data |-> ZeroBlock, dirty |-> FALSE]]
  /\ cache = [c \in C |-> {}]
  /\ file = [c \in C |-> [b \in Blocks |-> ZeroBlock]]
  /\ nFile = 0
  /\ wk = [c \in C |-> [w \in W |-> [pc |-> "check", blk |-> None, data |-> ZeroBlock]]]
  /\ stop = [c \in C |-> FALSE]
  /\ waiting = [c \in C |-> {}]
  /\ main = Idle
  /\ got = <<0, 0>>
  /\ ops = 0

InCache(c, b) == \E i \in cache[c] : i.blk = b
NotifyAll(c) == waiting' = [waiting EXCEPT ![c] = {}]
Runs(c, t) == t \notin waiting[c]

-----------------------------------------------------------------------------
(* Calling thread *)
StartPut == /\ main.pc = "idle" /\ ops < MaxOps
            /\ \E c \in C, r \in Rows, v \in Tokens :
                 /\ main' = [pc |-> IF buf[c].blk = BlockOf(r) THEN "setrow"
                                    ELSE IF buf[c].dirty THEN "store" ELSE "load",
                             c |-> c, r |-> r, v |-> v]
            /\ ops' = ops + 1
            /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, waiting, got>>
StartGet == /\ main.pc = "idle" /\ ops < MaxOps
            /\ \E c \in C, r \in Rows :
                 main' = [pc |-> IF buf[c].blk = BlockOf(r) THEN "getrow" ELSE "getwait", c |-> c, r |-> r, v |-> None]
            /\ ops' = ops + 1
            /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, waiting, got>>
StartClose == /\ main.pc = "idle"
              /\ main' = [pc |-> IF buf[1].dirty THEN "store" ELSE "drain", c |-> 1, r |-> None, v |-> None]
              /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, waiting, got, ops>>
IsPut == main.v # None
IsClose == main.r = None
Goto(pc) == main' = [main EXCEPT !.pc = pc]
(* hand the buffer over to the cache, when there is room and the block is not in it *)
Room(c) == /\ Cardinality(cache[c]) < MaxCache \/ Bug = "unbounded"
           /\ ~InCache(c, buf[c].blk)
Store == LET c == main.c IN
  /\ main.pc = "store" /\ Runs(c, 0)
  /\ \/ /\ Room(c)
        /\ cache' = [cache EXCEPT ![c] = @ \cup {[blk |-> buf[c].blk, data |-> buf[c].data, busy |-> FALSE]}]
        /\ NotifyAll(c)
        /\ buf' = [buf EXCEPT ![c].dirty = FALSE, ![c].data = ZeroBlock, ![c].blk = None]
        /\ Goto(IF IsClose THEN "drain" ELSE "load")
     \/ /\ ~Room(c)
        /\ waiting' = [waiting EXCEPT ![c] = @ \cup {0}]
        /\ UNCHANGED <<cache, buf, main>>
  /\ UNCHANGED <<val, file, nFile, wk, stop, got, ops>>
(* wait until the block is not in the cache; a read then finds out whether the *)
(* block exists                                                                *)
GetWait == LET c == main.c  b == BlockOf(main.r) IN
  /\ main.pc = "getwait" /\ Runs(c, 0)
  /\ IF InCache(c, b) /\ Bug # "nowait"
     THEN waiting' = [waiting EXCEPT ![c] = @ \cup {0}] /\ UNCHANGED <<main, got>>
     ELSE /\ IF b >= nFile THEN got' = <<val[c][main.r], 0>> /\ main' = Idle
             ELSE Goto(IF buf[c].dirty THEN "store" ELSE "load") /\ UNCHANGED got
          /\ UNCHANGED waiting
  /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, ops>>
Load == LET c == main.c  b == BlockOf(main.r) IN
  /\ main.pc = "load" /\ Runs(c, 0)
  /\ IF InCache(c, b) /\ Bug # "nowait"
     THEN waiting' = [waiting EXCEPT ![c] = @ \cup {0}] /\ UNCHANGED <<main, buf>>
     ELSE /\ buf' = [buf EXCEPT ![c] = [blk |-> b, dirty |-> FALSE,
                                        data |-> IF b < nFile /\ Bug # "noload" THEN file[c][b] ELSE ZeroBlock]]
          /\ Goto(IF IsPut THEN "setrow" ELSE "getrow")
          /\ UNCHANGED waiting
  /\ UNCHANGED <<val, cache, file, nFile, wk, stop, got, ops>>
SetRow == /\ main.pc = "setrow"
          /\ buf' = [buf EXCEPT ![main.c].data[InBlock(main.r)] = main.v, ![main.c].dirty = TRUE]
          /\ val' = [val EXCEPT ![main.c][main.r] = main.v]
          /\ main' = Idle
          /\ UNCHANGED <<cache, file, nFile, wk, stop, waiting, got, ops>>
GetRow == /\ main.pc = "getrow"
          /\ got' = <<val[main.c][main.r], buf[main.c].data[InBlock(main.r)]>>
          /\ main' = Idle
          /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, waiting, ops>>
(* closing: drain the cache, ask the threads to end, join them, next column *)
Drain == LET c == main.c IN
  /\ main.pc = "drain" /\ Runs(c, 0)
  /\ IF cache[c] # {} /\ Bug # "nodrain"
     THEN waiting' = [waiting EXCEPT ![c] = @ \cup {0}] /\ UNCHANGED <<main, stop>>
     ELSE stop' = [stop EXCEPT ![c] = TRUE] /\ (IF Bug = "nonotify" THEN UNCHANGED waiting ELSE NotifyAll(c)) /\ Goto("join")
  /\ UNCHANGED <<val, buf, cache, file, nFile, wk, got, ops>>
Join == LET c == main.c IN
  /\ main.pc = "join" /\ \A w \in W : wk[c][w].pc = "done"
  /\ main' = IF c = Cols THEN [Idle EXCEPT !.pc = "closed"]
             ELSE [pc |-> IF buf[c+1].dirty THEN "store" ELSE "drain", c |-> c + 1, r |-> None, v |-> None]
  /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, waiting, got, ops>>
Main == StartPut \/ StartGet \/ StartClose \/ Store \/ GetWait \/ Load \/ SetRow \/ GetRow \/ Drain \/ Join

-----------------------------------------------------------------------------
(* Encoding thread w of column c *)
Free(c) == {i \in cache[c] : ~i.busy \/ Bug = "twice"}
WCheck(c, w) ==
  /\ wk[c][w].pc = "check" /\ Runs(c, w)
  /\ IF stop[c] THEN wk' = [wk EXCEPT ![c][w].pc = "done"] /\ UNCHANGED <<cache, waiting>>
     ELSE IF Free(c) # {}
     THEN LET i == CHOOSE i \in Free(c) : i.blk = Min({j.blk : j \in Free(c)}) IN
          /\ wk' = [wk EXCEPT ![c][w] = [pc |-> "encode", blk |-> i.blk, data |-> i.data]]
          /\ cache' = [cache EXCEPT ![c] = (@ \ {i}) \cup (IF Bug = "early" THEN {} ELSE {[i EXCEPT !.busy = TRUE]})]
          /\ (IF Bug = "early" THEN NotifyAll(c) ELSE UNCHANGED waiting)
     ELSE waiting' = [waiting EXCEPT ![c] = @ \cup {w}] /\ UNCHANGED <<wk, cache>>
  /\ UNCHANGED <<val, buf, file, nFile, stop, main, got, ops>>
WEncode(c, w) ==
  /\ wk[c][w].pc = "encode"
  /\ file' = [file EXCEPT ![c][wk[c][w].blk] = wk[c][w].data]
  /\ nFile' = IF wk[c][w].blk >= nFile THEN wk[c][w].blk + 1 ELSE nFile
  /\ wk' = [wk EXCEPT ![c][w].pc = "erase"]
  /\ UNCHANGED <<val, buf, cache, stop, waiting, main, got, ops>>
WErase(c, w) ==
  /\ wk[c][w].pc = "erase"
  /\ cache' = [cache EXCEPT ![c] = {i \in @ : i.blk # wk[c][w].blk \/ Bug = "early"}]
  /\ wk' = [wk EXCEPT ![c][w] = [pc |-> "check", blk |-> None, data |-> ZeroBlock]]
  /\ (IF Bug = "nonotify" THEN UNCHANGED waiting ELSE NotifyAll(c))
  /\ UNCHANGED <<val, buf, file, nFile, stop, main, got, ops>>
Worker(c, w) == WCheck(c, w) \/ WEncode(c, w) \/ WErase(c, w)
(* condition variables may wake up for no reason *)
Spurious == /\ \E c \in C : \E t \in waiting[c] : waiting' = [waiting EXCEPT ![c] = @ \ {t}]
            /\ UNCHANGED <<val, buf, cache, file, nFile, wk, stop, main, got, ops>>

Closed == main.pc = "closed" /\ UNCHANGED vars
Next == Main \/ (\E c \in C, w \in W : Worker(c, w)) \/ Spurious \/ Closed
Fair == /\ WF_vars(Store \/ GetWait \/ Load \/ SetRow \/ GetRow \/ Drain \/ Join)
        /\ \A c \in C, w \in W : WF_vars(Worker(c, w))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
TypeOK == /\ \A c \in C : \A i, j \in cache[c] : i.blk = j.blk => i = j
          /\ nFile \in 0..NBlocks
(* what a reader has to find for a row, given where its block is *)
Abs(c, r) == LET b == BlockOf(r) IN
  IF buf[c].blk = b THEN buf[c].data[InBlock(r)]
  ELSE IF InCache(c, b) THEN (CHOOSE i \in cache[c] : i.blk = b).data[InBlock(r)]
  ELSE file[c][b][InBlock(r)]
(* C02 C03 C04: no block is lost, overtaken or torn *)
Refines == main.pc = "idle" => \A c \in C, r \in Rows : Abs(c, r) = val[c][r]
ReadsLatest == got[1] = got[2]
(* C01 C04: closing leaves everything in the file *)
Durable == main.pc = "closed" => \A c \in C, r \in Rows :
              file[c][BlockOf(r)][InBlock(r)] = val[c][r] /\ (val[c][r] # 0 => BlockOf(r) < nFile)
(* C05 *)
Bounded == \A c \in C : Cardinality(cache[c]) <= MaxCache
AllEnded == main.pc = "closed" => \A c \in C, w \in W : wk[c][w].pc = "done"
ExclusiveWrite == \A c \in C : \A w1, w2 \in W : w1 # w2 /\ wk[c][w1].pc = "encode" /\ wk[c][w2].pc = "encode" => wk[c][w1].blk # wk[c][w2].blk
Terminates == (main.pc \notin {"idle", "closed"}) ~> (main.pc \in {"idle", "closed"})
(* when nothing spurious happens there is no other way on than being notified *)
NoLostWakeup == ~(ENABLED (Main \/ (\E c \in C, w \in W : Worker(c, w)))) => main.pc = "closed"
=============================================================================
