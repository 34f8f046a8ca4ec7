----------------------------- MODULE DyscoStore -----------------------------
(***************************************************************************)
(* What a user of a table with Dysco columns observes: the sequential,      *)
(* API-level specification. A table is a record; every call of the user is  *)
(* an operator Can...(s, ..) -- the documented conditions of use -- and an  *)
(* operator Do...(s, ..) that gives the table after the call. The threads,  *)
(* the write cache and the file are specified in WriteBehind.tla, which     *)
(* refines this module.                                                     *)
(*                                                                          *)
(* Cells hold tokens (small integers). Token 0 is a cell of zeros, which is *)
(* also what a cell that was never written holds.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Zero   == 0
Unspec == -9      \* cell of a row that was removed and added again: anything

RangeOf(q) == {q[i] : i \in 1..Len(q)}

(* cols   sequence of the column ids in table order                         *)
(* mgr    column id -> storage manager (1 or 2) it is bound to              *)
(* rpb    rows in a time block                                              *)
(* val    column id -> row -> token                                         *)
(* known  storage manager -> TRUE once the size of time blocks is fixed     *)
(* pend   column id -> rows written while the block size was not fixed      *)
(* late   storage managers that were added to the existing table            *)
(* mode   "rw", "ro" or "closed"                                            *)
(* dig    digest of the storage files if unchanged since it was observed    *)
NewTable(cols, mgr, rpb, nrow, maxrow) ==
  [cols |-> cols, mgr |-> mgr, rpb |-> rpb, nrow |-> nrow,
   val |-> [c \in 1..4 |-> [r \in 0..maxrow-1 |-> Zero]],
   known |-> [m \in 1..2 |-> FALSE],
   pend |-> [c \in 1..4 |-> {}],
   late |-> {}, mode |-> "rw", dig |-> -1]

Cols(s) == RangeOf(s.cols)
IsKnown(s, c) == s.known[s.mgr[c]]
FirstBlock(s) == 0..(s.rpb - 1)

-----------------------------------------------------------------------------
(* Put: conditions of use. Until the block size is fixed, a column is       *)
(* written inside the first time block; the first row of the second block   *)
(* may be written to a column of which the whole first block was written,   *)
(* and this fixes the block size for all columns of the storage manager.    *)
CanPut(s, c, r) ==
  /\ s.mode = "rw" /\ c \in Cols(s) /\ r \in 0..(s.nrow - 1)
  /\ \/ IsKnown(s, c)
     \/ r \in FirstBlock(s)
     \/ r = s.rpb /\ s.pend[c] = FirstBlock(s)

DoPut(s, c, r, v) ==
  LET fixes == ~IsKnown(s, c) /\ r = s.rpb IN
  [s EXCEPT !.val[c][r] = v,
            !.pend[c] = IF IsKnown(s, c) \/ fixes THEN @ ELSE @ \cup {r},
            !.known[s.mgr[c]] = @ \/ fixes,
            !.dig = -1]

Get(s, c, r) == s.val[c][r]

(* A returned token is acceptable for the cell *)
Matches(expected, got) == expected = Unspec \/ expected = got

-----------------------------------------------------------------------------
(* Closing. A storage manager whose block size is not fixed can be closed   *)
(* if nothing was written, or if what was written is the whole table (which *)
(* is then a table of one time block). [Closing with an incompletely        *)
(* written first block is the known finding KF1.]                           *)
PendCols(s, m) == {c \in Cols(s) : s.mgr[c] = m /\ s.pend[c] # {}}
MgrCols(s, m)  == {c \in Cols(s) : s.mgr[c] = m}
CanCloseMgr(s, m) ==
  \/ s.known[m]
  \/ PendCols(s, m) = {}
  \/ /\ \A c \in PendCols(s, m) : s.pend[c] = 0..(s.nrow - 1)
     /\ s.nrow <= s.rpb
     /\ (\E k \in 1..2 : s.known[k]) => s.nrow = s.rpb
CanClose(s) ==
  /\ s.mode # "closed"
  /\ \A m \in 1..2 : CanCloseMgr(s, m)
Fixes(s, m) == ~s.known[m] /\ PendCols(s, m) # {}
DoClose(s) ==
  [s EXCEPT !.mode = "closed",
            !.rpb = IF \E m \in 1..2 : Fixes(s, m) THEN s.nrow ELSE @,
            !.known = [m \in 1..2 |-> s.known[m] \/ Fixes(s, m)],
            !.pend = [c \in 1..4 |-> {}]]

CanOpen(s) == s.mode = "closed"
DoOpen(s, m) == [s EXCEPT !.mode = m]
(* a table that was opened to read can be made writable *)
CanReopen(s) == s.mode = "ro"
DoReopen(s)  == [s EXCEPT !.mode = "rw"]
(* Flushing halfway changes nothing that can be observed *)
CanFlush(s) == s.mode # "closed"
DoFlush(s)  == s

-----------------------------------------------------------------------------
(* Rows *)
CanAddRows(s, n) == s.mode = "rw"
DoAddRows(s, n)  == [s EXCEPT !.nrow = @ + n]

(* Only the last row can be removed; any other row is refused *)
\* (only the last row can be removed from a table with a Dysco column)
RemoveRowAccepted(s, r) == Cols(s) = {} \/ r = s.nrow - 1
CanRemoveRow(s, r) ==
  /\ s.mode = "rw" /\ r \in 0..(s.nrow - 1)
  /\ \A c \in Cols(s) : r \notin s.pend[c] \/ IsKnown(s, c)
  \* casacore asks the storage managers one by one. When one refuses, the
  \* earlier ones (its own too) have removed the row already.
  /\ RemoveRowAccepted(s, r) \/ \E c \in Cols(s) : s.mgr[c] \notin s.late
DoRemoveRow(s, r) ==
  IF RemoveRowAccepted(s, r)
  THEN [s EXCEPT !.nrow = @ - 1,
                 !.val = [c \in 1..4 |-> [@[c] EXCEPT ![r] = Unspec]],
                 !.dig = -1]
  ELSE s

-----------------------------------------------------------------------------
(* Columns. A storage manager disappears with its last column.                *)
CanAddColumn(s, c) == s.mode = "rw" /\ c \notin Cols(s) /\ MgrCols(s, 1) # {}
AddColumnAccepted(s, c) == ~s.known[1]
DoAddColumn(s, c) ==
  IF AddColumnAccepted(s, c)
  THEN [s EXCEPT !.cols = Append(@, c), !.mgr[c] = 1,
                 !.val[c] = [r \in DOMAIN @ |-> Zero],
                 !.pend[c] = {}, !.dig = -1]
  ELSE s

(* A column with a new storage manager, possibly for a table with rows *)
CanAddManager(s, c, m) == s.mode = "rw" /\ c \notin Cols(s) /\ MgrCols(s, m) = {}
DoAddManager(s, c, m) ==
  [s EXCEPT !.cols = Append(@, c), !.mgr[c] = m, !.known[m] = FALSE,
            !.late = @ \cup {m},
            !.val[c] = [r \in DOMAIN @ |-> Zero],
            !.pend[c] = {}, !.dig = -1]

CanRemoveColumn(s, c) ==
  s.mode = "rw" /\ c \in Cols(s)
DoRemoveColumn(s, c) ==
  [s EXCEPT !.cols = SelectSeq(@, LAMBDA d : d # c),
            !.pend[c] = {}, !.dig = -1]

CanRename(s, c) == s.mode = "rw" /\ c \in Cols(s)
DoRename(s, c)  == s
=============================================================================
