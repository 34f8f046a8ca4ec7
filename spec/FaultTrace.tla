------------------------------ MODULE FaultTrace ------------------------------
(***************************************************************************)
(* Histories during which the operating system refused operations on the     *)
(* storage files. inj: how many had been refused when the event ended. Until *)
(* a call reports it (an exception, the end of the process) the history has  *)
(* to be one of DyscoStore: right values, everything stored. What comes      *)
(* after the report is not judged, except after a refused read: values that  *)
(* are returned later are right. short: operations are only split in parts *)
(* (no error), which may not be noticeable at all.                           *)
(***************************************************************************)
EXTENDS DyscoStoreTrace
VARIABLES over
fvars == <<S, l, over>>
Reports(e) == e.inj > 0 /\ \/ e.e \in {"exception", "terminate"}
                           \/ e.e \in {"mk", "put", "open", "addrows", "rmrow", "addcol", "rmcol", "ren", "flush", "reopen"} /\ e.ok = 0
ReadRefused(e) == e.e = "get" /\ e.inj > 0 /\ e.v = -2
(* reading the whole table: every value that is returned is right, or it is refused *)
AllReports(s) == /\ E.e = "all" /\ E.inj > 0 /\ E.nrow = s.nrow /\ RangeOf(E.cols) = Cols(s) /\ Len(E.v) = Len(E.cols)
                 /\ \E i \in 1..Len(E.cols) : \E r \in 1..s.nrow : E.v[i][r] = -2
                 /\ \A i \in 1..Len(E.cols) : Len(E.v[i]) = s.nrow /\ \A r \in 0..s.nrow-1 : E.v[i][r+1] = -2 \/ Matches(Get(s, E.cols[i], r), E.v[i][r+1])
FInit == Init /\ over = FALSE
FNext == \/ ~over /\ Next /\ over' = FALSE
         \/ ~over /\ l <= Len(Trace) /\ Reports(E) /\ over' = TRUE /\ l' = l + 1 /\ UNCHANGED S
         \/ ~over /\ l <= Len(Trace) /\ E.e = "all" /\ AllReports(S[E.tab]) /\ over' = FALSE /\ l' = l + 1 /\ UNCHANGED S
         \/ ~over /\ l <= Len(Trace) /\ ReadRefused(E) /\ over' = FALSE /\ l' = l + 1 /\ UNCHANGED S
         \* whatever follows a reported error, every operation ends (casacore itself may crash when adding or removing a column failed)
         \/ over /\ l <= Len(Trace) /\ E.e \notin {"run", "hang", "stuck"} /\ over' = TRUE /\ l' = l + 1 /\ UNCHANGED S
         \/ over /\ TRun /\ over' = FALSE
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
