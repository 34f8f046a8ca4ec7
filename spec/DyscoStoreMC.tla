---------------------------- MODULE DyscoStoreMC ----------------------------
(* Exhaustive exploration of the API-level specification itself: laws that   *)
(* the operators have to satisfy (a sanity check of the specification).      *)
EXTENDS DyscoStore, TLC
CONSTANTS MaxRow, Tokens, MaxOps
VARIABLES s, n, old     \* table, number of calls, table before the last call
vars == <<s, n, old>>

Init == /\ \E rpb \in 1..2, nrow \in 0..MaxRow :
             \E cs \in {<<1>>, <<1, 3>>, <<3, 1, 2>>} :
               s = NewTable(cs, [c \in 1..4 |-> 1], rpb, nrow, MaxRow)
        /\ n = 0 /\ old = s
Step(t) == n < MaxOps /\ n' = n + 1 /\ s' = t /\ old' = s
Put       == \E c \in 1..3, r \in 0..MaxRow-1, v \in Tokens : CanPut(s, c, r) /\ Step(DoPut(s, c, r, v))
Close     == CanClose(s) /\ Step(DoClose(s))
Open      == \E m \in {"rw", "ro"} : CanOpen(s) /\ Step(DoOpen(s, m))
AddRows   == CanAddRows(s, 1) /\ s.nrow < MaxRow /\ Step(DoAddRows(s, 1))
RemoveRow == \E r \in 0..MaxRow-1 : CanRemoveRow(s, r) /\ Step(DoRemoveRow(s, r))
AddCol    == \E c \in 1..3 : CanAddColumn(s, c) /\ Step(DoAddColumn(s, c))
AddMgr    == \E c \in 1..3, m \in 1..2 : CanAddManager(s, c, m) /\ Step(DoAddManager(s, c, m))
RemoveCol == \E c \in 1..3 : CanRemoveColumn(s, c) /\ Step(DoRemoveColumn(s, c))
Next == Put \/ Close \/ Open \/ AddRows \/ RemoveRow \/ AddCol \/ AddMgr \/ RemoveCol
Spec == Init /\ [][Next]_vars

TypeOK == /\ s.mode \in {"rw", "ro", "closed"} /\ s.nrow \in 0..MaxRow
          /\ \A c \in Cols(s) : s.mgr[c] \in 1..2
          /\ Cardinality(Cols(s)) = Len(s.cols) /\ s.rpb >= 1

(* Frame condition: a call changes at most the row it addresses *)
Frame == \A c \in Cols(s) \cap Cols(old) :
           Cardinality({r \in 0..MaxRow-1 : s.val[c][r] # old.val[c][r]}) <= 1
(* Rows that stay keep their values unless a put addressed them; closing and *)
(* opening changes no cell.                                                  *)
Durable == (s.mode # old.mode) => s.val = old.val
(* Nothing is ever pending in a closed table, and a manager whose size is    *)
(* fixed stays so                                                            *)
ClosedClean == s.mode = "closed" => \A c \in 1..4 : s.pend[c] = {}
KnownStable == \A m \in 1..2 : old.known[m] /\ MgrCols(old, m) # {} => s.known[m] /\ s.rpb = old.rpb
(* A column can only be written outside the first block if the size is fixed *)
FirstPhase == \A c \in Cols(s) : ~IsKnown(s, c) =>
                \A r \in 0..MaxRow-1 : s.val[c][r] \notin {0, Unspec} => r < s.rpb
ReadOnly == old.mode = "ro" => s.val = old.val /\ s.cols = old.cols /\ s.nrow = old.nrow
=============================================================================
