--------------------------- MODULE DyscoStoreGen ----------------------------
(* Generates histories of calls: behaviours of DyscoStore with a history      *)
(* variable, printed as JSON by TLC's simulation mode and replayed on the     *)
(* real storage manager.                                                      *)
EXTENDS DyscoStore, TLC, Json
CONSTANTS
  MaxRow,      \* rows of the largest table
  RPBs,        \* rows per time block
  Len1,        \* number of calls
  ColKind,     \* which column sequences
  Weights      \* kinds of calls: "rows", "cols", "session", "read", "two"
VARIABLES s, n, hist, done
vars == <<s, n, hist, done>>

ColSets == CASE ColKind = "one"  -> {<<1>>, <<3>>}
             [] ColKind = "two"  -> {<<1, 3>>, <<3, 1>>, <<1, 2>>}
             [] ColKind = "many" -> {<<1, 2, 3>>, <<3, 1, 2>>, <<1, 3, 2, 4>>}
             [] OTHER            -> {<<1>>, <<3>>, <<1, 3>>, <<3, 1>>, <<1, 2, 3>>}
Has(k) == k \in Weights
Mgrs(cs) == IF Has("two") /\ Len(cs) > 1
            THEN {[c \in 1..4 |-> IF c \in x THEN 2 ELSE 1] : x \in (SUBSET RangeOf(cs)) \ {RangeOf(cs)}}
            ELSE {[c \in 1..4 |-> 1]}
Init == /\ \E cs \in ColSets, rpb \in RPBs, nrow \in 0..MaxRow : \E m \in Mgrs(cs) :
             /\ Has("rows") \/ (nrow >= rpb * 2 /\ nrow % rpb = 0)
             /\ s = NewTable(cs, m, rpb, nrow, MaxRow)
             /\ hist = <<[op |-> "mk", cols |-> cs, cols2 |-> SelectSeq(cs, LAMBDA c : m[c] = 2), rpb |-> rpb, nrow |-> nrow]>>
        /\ n = 0 /\ done = FALSE

(* Tokens follow from the step, so that every put differs from the previous   *)
Tok == IF n % 11 = 7 THEN 9 ELSE IF n % 7 = 4 THEN 16 + 1 + (n % 8) ELSE 1 + (n % 8)
TokFor(c) == IF c = 3 THEN 1 + (n % 8) ELSE Tok
Rows == 0..(s.nrow - 1)

Do(t, h) == ~done /\ n < Len1 + 12 /\ s' = t /\ n' = n + 1 /\ hist' = Append(hist, h) /\ UNCHANGED done

Put == \E c \in Cols(s), r \in Rows : CanPut(s, c, r) /\ Do(DoPut(s, c, r, TokFor(c)), [op |-> "put", c |-> c, r |-> r, v |-> TokFor(c)])
(* writing over a cell of a block that was already written, with zeros *)
PutZero == \E c \in Cols(s), r \in Rows : CanPut(s, c, r) /\ n % 3 = 0 /\ Do(DoPut(s, c, r, 0), [op |-> "put", c |-> c, r |-> r, v |-> 0])
(* progress in the phase where the block size is not fixed: next row in order *)
NextRow(c) == IF s.pend[c] = FirstBlock(s) THEN s.rpb
              ELSE CHOOSE r \in FirstBlock(s) \ s.pend[c] : \A q \in FirstBlock(s) \ s.pend[c] : r <= q
PutFirst == \E c \in Cols(s) : /\ ~IsKnown(s, c) /\ NextRow(c) < s.nrow /\ CanPut(s, c, NextRow(c))
              /\ Do(DoPut(s, c, NextRow(c), TokFor(c)), [op |-> "put", c |-> c, r |-> NextRow(c), v |-> TokFor(c)])
(* sequential writing: the row after the one put last *)
LastPut == IF \E i \in 2..Len(hist) : hist[i].op = "put"
           THEN hist[CHOOSE i \in 2..Len(hist) : hist[i].op = "put" /\ \A j \in i+1..Len(hist) : hist[j].op # "put"]
           ELSE [op |-> "put", c |-> 0, r |-> 0, v |-> 0]
PutNext == LET p == LastPut IN
             /\ p.c \in Cols(s) /\ CanPut(s, p.c, p.r + 1)
             /\ Do(DoPut(s, p.c, p.r + 1, TokFor(p.c)), [op |-> "put", c |-> p.c, r |-> p.r + 1, v |-> TokFor(p.c)])
(* the same row in the next block: a block transition with one row written    *)
PutNextBlock == LET p == LastPut IN
             /\ p.c \in Cols(s) /\ IsKnown(s, p.c) /\ CanPut(s, p.c, p.r + s.rpb)
             /\ Do(DoPut(s, p.c, p.r + s.rpb, TokFor(p.c)), [op |-> "put", c |-> p.c, r |-> p.r + s.rpb, v |-> TokFor(p.c)])
PutPrevBlock == LET p == LastPut IN
             /\ p.c \in Cols(s) /\ IsKnown(s, p.c) /\ p.r >= s.rpb /\ CanPut(s, p.c, p.r - s.rpb)
             /\ Do(DoPut(s, p.c, p.r - s.rpb, TokFor(p.c)), [op |-> "put", c |-> p.c, r |-> p.r - s.rpb, v |-> TokFor(p.c)])
PutOtherCol == LET p == LastPut IN \E c \in Cols(s) \ {p.c} :
             /\ CanPut(s, c, p.r)
             /\ Do(DoPut(s, c, p.r, TokFor(c)), [op |-> "put", c |-> c, r |-> p.r, v |-> TokFor(c)])
GetLast == LET p == LastPut IN s.mode # "closed" /\ p.c \in Cols(s) /\ p.r < s.nrow /\ Do(s, [op |-> "get", c |-> p.c, r |-> p.r])
GetAny  == \E c \in Cols(s), r \in Rows : s.mode # "closed" /\ Do(s, [op |-> "get", c |-> c, r |-> r])
GetAny2 == Has("read") /\ GetAny
All     == /\ s.mode # "closed" /\ n % 4 = 1 /\ \E k \in 0..2 : Do(s, [op |-> "all", k |-> k])
Close   == /\ Has("session") /\ CanClose(s) /\ Do(DoClose(s), [op |-> "close", rpb |-> DoClose(s).rpb])
CloseRO == /\ Has("session") /\ s.mode = "ro" /\ CanClose(s) /\ Do(DoClose(s), [op |-> "close", rpb |-> DoClose(s).rpb])
OpenRW  == CanOpen(s) /\ Do(DoOpen(s, "rw"), [op |-> "open", m |-> "rw", known |-> \A c \in Cols(s) : IsKnown(s, c)])
OpenRO  == CanOpen(s) /\ Has("ro") /\ Do(DoOpen(s, "ro"), [op |-> "open", m |-> "ro"])
Reopen  == CanReopen(s) /\ Do(DoReopen(s), [op |-> "reopen"])
Flush   == n % 6 = 5 /\ CanFlush(s) /\ Do(DoFlush(s), [op |-> "flush"])
Digest  == s.mode = "closed" /\ Has("ro") /\ hist[Len(hist)].op # "digest" /\ Do(s, [op |-> "digest"])
AddRows == Has("rows") /\ \E k \in 1..4 : s.nrow + k <= MaxRow /\ CanAddRows(s, k) /\ Do(DoAddRows(s, k), [op |-> "addrows", n |-> k])
RemoveRow == Has("rows") /\ \E r \in Rows : r >= s.nrow - 2 /\ CanRemoveRow(s, r) /\ Do(DoRemoveRow(s, r), [op |-> "rmrow", r |-> r])
AddCol  == Has("cols") /\ \E c \in 1..4 : CanAddColumn(s, c) /\ Do(DoAddColumn(s, c), [op |-> "addcol", c |-> c])
AddMgr  == Has("cols") /\ n % 2 = 0 /\ \E c \in 1..4, m \in 1..2 : CanAddManager(s, c, m) /\ Do(DoAddManager(s, c, m), [op |-> "addmgr", c |-> c, m |-> m])
RemoveCol == Has("cols") /\ \E c \in Cols(s) : CanRemoveColumn(s, c) /\ Do(DoRemoveColumn(s, c), [op |-> "rmcol", c |-> c])
Rename  == Has("cols") /\ n % 5 = 2 /\ \E c \in Cols(s) : CanRename(s, c) /\ Do(DoRename(s, c), [op |-> "ren", c |-> c])
(* "update": the history ends inside a session in which an existing table with time blocks of known size is updated *)
InUpdate == /\ s.mode = "rw" /\ \A c \in Cols(s) : IsKnown(s, c)
            /\ \E i \in 1..Len(hist)-5 : /\ hist[i].op = "open" /\ hist[i].m = "rw" /\ hist[i].known
                                          /\ \A j \in i+1..Len(hist) : hist[j].op # "open"
Finish  == /\ ~done /\ n >= Len1 /\ (s.mode = "closed" \/ CanClose(s))
           /\ Has("update") => InUpdate
           /\ PrintT("@@" \o ToJson(Append(hist, [op |-> "finish", mode |-> s.mode, rpb |-> IF s.mode = "closed" THEN s.rpb ELSE DoClose(s).rpb])))
           /\ done' = TRUE /\ UNCHANGED <<s, n, hist>>

Next == \/ Put \/ PutZero \/ PutFirst \/ PutNext \/ PutNextBlock \/ PutPrevBlock \/ PutOtherCol
        \/ GetLast \/ GetAny \/ GetAny2 \/ All \/ Close \/ CloseRO \/ Reopen \/ Flush \/ OpenRW \/ OpenRO \/ Digest
        \/ AddRows \/ RemoveRow \/ AddCol \/ AddMgr \/ RemoveCol \/ Rename \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
