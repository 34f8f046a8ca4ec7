----------------------------- MODULE CrashTrace ------------------------------
(***************************************************************************)
(* Histories in which the process is killed and another one goes on with     *)
(* the tables. Puts are announced ("begin") before they are done. After      *)
(* "killed" a table that was being updated is the table as it was when it    *)
(* was opened, except for the time blocks of columns in which a put had      *)
(* begun since then: these hold anything from then on. Other blocks do not   *)
(* change at all (bits, see DyscoStoreTrace).                                *)
(***************************************************************************)
EXTENDS DyscoStoreTrace
VARIABLES base,    \* the table when it was opened
          taint,   \* <<column, block>> that hold anything
          rows     \* the numbers of rows the table had since it was opened, any of which may be what is found later
cvars == <<S, l, base, taint, rows>>
Keep == UNCHANGED <<base, taint, rows>>
Clean(t, s, c, r) == <<c, Blk(s, r)>> \notin taint[t]
(* a table that is not judged: it was being created when the process was killed *)
Lost == [cols |-> <<>>, mode |-> "lost"]
Judged == IF E.e \in {"run", "killed", "end"} THEN TRUE ELSE S[E.tab].mode # "lost"
None == [t \in Tabs |-> {}]

CInit == Init /\ base = [t \in Tabs |-> NoTable] /\ taint = None /\ rows = None
CRun   == TRun /\ base' = [t \in Tabs |-> NoTable] /\ taint' = None /\ rows' = None
CMk    == TMk /\ base' = [base EXCEPT ![E.tab] = Lost] /\ UNCHANGED <<taint, rows>>
CBegin == LET s == S[E.tab] IN Is("begin") /\ (IF s.mode = "rw" THEN Upd(E.tab, Heat(s, E.c, E.r)) ELSE UNCHANGED S) /\ Keep
AllKnown(s) == \A c \in Cols(s) : IsKnown(s, c)
COpen  == LET s == [S[E.tab] EXCEPT !.nrow = IF E.nrow \in rows[E.tab] THEN E.nrow ELSE @] IN
          /\ Is("open") /\ CanOpen(s) /\ E.ok = 1 /\ E.nrow = s.nrow
          /\ Upd(E.tab, DoOpen(Cool(s), E.mode))
          /\ base' = [base EXCEPT ![E.tab] = IF AllKnown(s) THEN s ELSE Lost]
          /\ rows' = [rows EXCEPT ![E.tab] = {}] /\ UNCHANGED taint
CRows  == /\ (TAddRows \/ TRmRow) /\ rows' = [rows EXCEPT ![E.tab] = @ \cup {S[E.tab].nrow, S'[E.tab].nrow}]
          /\ UNCHANGED <<base, taint>>
CKilled == /\ Is("killed")
           \* what was read exactly since then is known as well
           /\ S' = [t \in Tabs |-> IF S[t].mode = "rw" THEN (IF base[t].mode = "lost" THEN Lost ELSE [base[t] EXCEPT !.bits = S[t].bits])
                                   ELSE IF S[t].mode = "ro" THEN DoClose(S[t]) ELSE S[t]]
           /\ taint' = [t \in Tabs |-> IF S[t].mode = "rw" THEN taint[t] \cup S[t].hot ELSE taint[t]]
           /\ UNCHANGED <<base, rows>>
CGet   == LET s == S[E.tab] IN /\ Is("get")
          /\ (Clean(E.tab, s, E.c, E.r) => (Matches(Get(s, E.c, E.r), E.v) /\ SameBits(s, E.c, E.r, E.b)))
          /\ Upd(E.tab, SeeCell(s, E.c, E.r, E.b)) /\ Keep
CAll   == LET s == S[E.tab] IN
          /\ Is("all") /\ E.nrow = s.nrow /\ RangeOf(E.cols) = Cols(s) /\ Len(E.v) = Len(E.cols)
          /\ \A i \in 1..Len(E.cols) :
               /\ Len(E.v[i]) = s.nrow
               /\ \A r \in 0..s.nrow-1 : Clean(E.tab, s, E.cols[i], r)
                    => (Matches(Get(s, E.cols[i], r), E.v[i][r+1]) /\ SameBits(s, E.cols[i], r, E.bits[i][r+1]))
          /\ Upd(E.tab, SeeAll(s, BitsOf(E))) /\ Keep
COther == (TPut \/ TFlush \/ TReopen \/ TEnd) /\ Keep
CClose == TClose /\ rows' = [rows EXCEPT ![E.tab] = {}] /\ UNCHANGED <<base, taint>>
(* a put in a block with unusable contents may be refused *)
CRefused == LET s == S[E.tab] IN Is("put") /\ E.ok = 0 /\ ~Clean(E.tab, s, E.c, E.r) /\ UNCHANGED S /\ Keep
CLost  == ~Judged /\ l' = l + 1 /\ UNCHANGED S /\ Keep
CNext == l <= Len(Trace) /\
         (CRun \/ CKilled \/ (Judged /\ (CMk \/ CBegin \/ COpen \/ CGet \/ CAll \/ COther \/ CRows \/ CClose \/ CRefused)) \/ CLost)
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
