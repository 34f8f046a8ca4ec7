-------------------------- MODULE DyscoStoreTrace ---------------------------
(***************************************************************************)
(* Checks that histories recorded from the real storage manager are         *)
(* behaviours of DyscoStore. TraceFile holds one event per line: the call,  *)
(* its arguments and what was observed. An event the specification does not *)
(* allow (a wrong token, an unexpected error, a crash, a hang) has no       *)
(* successor, so that the trace is not consumed completely.                 *)
(*                                                                          *)
(* Besides the token, a read reports a number that identifies the exact     *)
(* contents of the cell (bits). A time block of a column to which nothing   *)
(* is written keeps its exact contents, whatever else is done.              *)
(***************************************************************************)
EXTENDS DyscoStore, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
MaxAhead == 64      \* bound on the blocks accepted while nothing is written

VARIABLES S, l
vars == <<S, l>>
Tabs == 1..2
NoTable == [cols |-> <<>>, mode |-> "none"]

Init == S = [t \in Tabs |-> NoTable] /\ l = 1

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Upd(t, s) == S' = [S EXCEPT ![t] = s]
MgrOf(e) == [c \in 1..4 |-> IF \E i \in DOMAIN e.cols2 : e.cols2[i] = c THEN 2 ELSE 1]

(* bits   column -> row -> the exact contents that were read, -1 if not known *)
(* hot    <<column, block>> that were written to since the table was opened:  *)
(*        what is read from these changes when they reach the file            *)
Blk(s, r) == r \div s.rpb
Traced(s, n) == s @@ [bits |-> [c \in 1..4 |-> [r \in 0..n-1 |-> -1]], hot |-> {}]
Heat(s, c, r) == [s EXCEPT !.hot = @ \cup {<<c, Blk(s, r)>>},
                           !.bits[c] = [q \in DOMAIN @ |-> IF Blk(s, q) = Blk(s, r) THEN -1 ELSE @[q]]]
Cool(s) == [s EXCEPT !.hot = {}]
(* (what a row that was removed and added again holds may also change)        *)
Settled(s, c, r) == IsKnown(s, c) /\ s.val[c][r] # Unspec /\ <<c, Blk(s, r)>> \notin s.hot
SameBits(s, c, r, b) == s.bits[c][r] \in {-1, b}
SeeCell(s, c, r, b) == IF Settled(s, c, r) THEN [s EXCEPT !.bits[c][r] = b] ELSE s
(* b: column -> row -> contents *)
SeeAll(s, b) == [s EXCEPT !.bits = [c \in 1..4 |-> [r \in DOMAIN @[c] |->
                   IF c \in Cols(s) /\ r < s.nrow /\ Settled(s, c, r) THEN b[c][r] ELSE @[c][r]]]]
BitsOf(e) == [c \in RangeOf(e.cols) |-> LET i == CHOOSE i \in 1..Len(e.cols) : e.cols[i] = c IN [r \in 0..e.nrow-1 |-> e.bits[i][r+1]]]

TRun   == Is("run") /\ S' = [t \in Tabs |-> NoTable]
TMk    == /\ Is("mk") /\ E.ok = 1
          /\ Upd(E.tab, Traced(NewTable(E.cols, MgrOf(E), E.rpb, E.nrow, E.maxrow), E.maxrow))
TPut   == LET s == S[E.tab] IN
          /\ Is("put")
          /\ IF s.mode = "ro" THEN E.ok = 0 /\ UNCHANGED S
             ELSE /\ CanPut(s, E.c, E.r) /\ E.ok = 1
                  /\ Upd(E.tab, DoPut(Heat(s, E.c, E.r), E.c, E.r, E.v))
TGet   == LET s == S[E.tab] IN
          /\ Is("get") /\ Matches(Get(s, E.c, E.r), E.v) /\ SameBits(s, E.c, E.r, E.b)
          /\ Upd(E.tab, SeeCell(s, E.c, E.r, E.b))
TAll   == LET s == S[E.tab] IN
          /\ Is("all") /\ E.nrow = s.nrow /\ RangeOf(E.cols) = Cols(s)
          /\ Len(E.v) = Len(E.cols)
          /\ \A i \in 1..Len(E.cols) :
               /\ Len(E.v[i]) = s.nrow
               /\ \A r \in 0..s.nrow-1 : Matches(Get(s, E.cols[i], r), E.v[i][r+1]) /\ SameBits(s, E.cols[i], r, E.bits[i][r+1])
          /\ Upd(E.tab, SeeAll(s, BitsOf(E)))
TClose == LET s == S[E.tab] IN
          /\ Is("close") /\ CanClose(s)
          \* no encoding threads are left when no other table is open
          /\ (\A t \in Tabs \ {E.tab} : S[t].mode \in {"none", "closed"}) => E.alive = 0
          /\ Upd(E.tab, DoClose(s))
TOpen  == LET s == S[E.tab] IN
          /\ Is("open") /\ CanOpen(s) /\ E.ok = 1 /\ E.nrow = s.nrow
          /\ Upd(E.tab, DoOpen(Cool(s), E.mode))
TAddRows == LET s == S[E.tab] IN
          /\ Is("addrows") /\ CanAddRows(s, E.n) /\ E.ok = 1
          /\ Upd(E.tab, DoAddRows(s, E.n))
TRmRow == LET s == S[E.tab] IN
          /\ Is("rmrow") /\ CanRemoveRow(s, E.r)
          /\ E.ok = IF RemoveRowAccepted(s, E.r) THEN 1 ELSE 0
          /\ E.nrow = DoRemoveRow(s, E.r).nrow
          /\ Upd(E.tab, [DoRemoveRow(s, E.r) EXCEPT !.bits = [c \in 1..4 |-> [@[c] EXCEPT ![E.r] = -1]]])
TAddCol == LET s == S[E.tab] IN
          /\ Is("addcol") /\ CanAddColumn(s, E.c)
          /\ E.ok = (IF AddColumnAccepted(s, E.c) THEN 1 ELSE 0) /\ E.is = E.ok
          /\ Upd(E.tab, [DoAddColumn(s, E.c) EXCEPT !.bits[E.c] = [r \in DOMAIN @ |-> -1]])
TAddMgr == LET s == S[E.tab] IN
          /\ Is("addmgr") /\ CanAddManager(s, E.c, E.m) /\ E.ok = 1 /\ E.is = 1
          /\ Upd(E.tab, [DoAddManager(s, E.c, E.m) EXCEPT !.bits[E.c] = [r \in DOMAIN @ |-> -1]])
TRmCol == LET s == S[E.tab] IN
          /\ Is("rmcol") /\ CanRemoveColumn(s, E.c) /\ E.ok = 1 /\ E.is = 0
          /\ Upd(E.tab, DoRemoveColumn(s, E.c))
TRen   == Is("ren") /\ CanRename(S[E.tab], E.c) /\ E.ok = 1 /\ UNCHANGED S
TFlush == Is("flush") /\ E.ok = 1 /\ CanFlush(S[E.tab]) /\ Upd(E.tab, DoFlush(S[E.tab]))
TReopen == Is("reopen") /\ E.ok = 1 /\ CanReopen(S[E.tab]) /\ Upd(E.tab, DoReopen(Cool(S[E.tab])))
(* Storage files do not change unless something is written *)
TDigest == LET s == S[E.tab] IN
          /\ Is("digest")
          /\ s.dig # -1 => s.dig = E.d
          /\ Upd(E.tab, [s EXCEPT !.dig = E.d])
(* All rows of n blocks written in order while the encoding threads stand still *)
TSweep == LET s == S[E.tab] IN
          /\ Is("sweep") /\ E.n * s.rpb = s.nrow
          /\ E.ahead <= MaxAhead
          /\ Upd(E.tab, [s EXCEPT !.val[E.c] = [r \in DOMAIN @ |-> IF r < s.nrow THEN E.v ELSE @[r]],
                                  !.bits[E.c] = [r \in DOMAIN @ |-> -1],
                                  !.hot = @ \cup {<<E.c, b>> : b \in 0..E.n-1},
                                  !.known[s.mgr[E.c]] = E.n > 1,
                                  !.pend[E.c] = FirstBlock(s), !.dig = -1])
TEnd   == Is("end") /\ E.alive = 0 /\ UNCHANGED S

Next == \/ TRun \/ TMk \/ TPut \/ TGet \/ TAll \/ TClose \/ TOpen \/ TAddRows \/ TRmRow
        \/ TAddCol \/ TAddMgr \/ TRmCol \/ TRen \/ TFlush \/ TReopen \/ TDigest \/ TSweep \/ TEnd
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
