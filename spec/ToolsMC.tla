------------------------------- MODULE ToolsMC -------------------------------
(***************************************************************************)
(* Checks of what the specification of the tools relies on, for all small     *)
(* measurement sets: what dscompress has to find out row by row is what the   *)
(* storage manager needs (blocks that repeat with a fixed number of rows);    *)
(* a refused command changes nothing and can be told from one that has to     *)
(* succeed; and compressing and decompressing can be repeated.                *)
(***************************************************************************)
EXTENDS Tools, TLC
CONSTANTS MaxRows, Times, Ants
VARIABLE rows
RowSet == [t : Times, f : {0}, d : {0, 1}, a : Ants, b : {2}]
Init == rows = <<>>
Next == Len(rows) < MaxRows /\ \E r \in RowSet : rows' = Append(rows, r)
Spec == Init /\ [][Next]_rows
RegularIsPeriodic == rows # <<>> => (Regular(rows) <=> \E n \in 1..Len(rows) : Periodic(rows, n))
OnlyOnePeriod == \A n, m \in 1..Len(rows) : Periodic(rows, n) /\ Periodic(rows, m) => n = m
BlocksPartition == \A k \in DOMAIN Starts(rows) : BlockEnd(rows, k) >= Starts(rows)[k] /\ (k > 1 => Starts(rows)[k] = BlockEnd(rows, k - 1) + 1)
(* a regular set stays regular when whole blocks are added that are those of the first *)
(* the state machine of a measurement set with two columns *)
C(n, dys) == [name |-> n, type |-> TypeFor(n), isarr |-> TRUE, dims |-> [i \in DOMAIN rows |-> <<1, 1>>], dm |-> IF dys THEN "DyscoStMan" ELSE "StandardStMan",
              set |-> IF dys THEN [db |-> 8, wb |-> 12, dist |-> "Uniform", norm |-> "AF", trunc |-> ""] ELSE [db |-> 0, wb |-> 0, dist |-> "", norm |-> "", trunc |-> ""], vals |-> [i \in 1..(2 * Len(rows)) |-> 0], dig |-> "x", kw |-> "k"]
F == [name |-> "FLAG", type |-> "Bool", isarr |-> TRUE, dims |-> [i \in DOMAIN rows |-> <<1, 1>>], dm |-> "StandardStMan", set |-> [db |-> 0, wb |-> 0, dist |-> "", norm |-> "", trunc |-> ""], vals |-> [i \in DOMAIN rows |-> 0], dig |-> "f", kw |-> "k"]
S(a, b) == [rows |-> rows, order |-> <<"DATA", "WEIGHT_SPECTRUM", "FLAG">>, cols |-> <<C("DATA", a), [C("WEIGHT_SPECTRUM", b) EXCEPT !.vals = [i \in DOMAIN rows |-> 0]], F>>, kw |-> "", sub |-> ""]
Cmd(cs, db) == [cols |-> cs, db |-> db, wb |-> 12, dist |-> "Uniform", norm |-> "AF", trunc |-> "", bad |-> "", reorder |-> 0]
Asks == {<<"DATA">>, <<"DATA", "WEIGHT_SPECTRUM">>, <<"WEIGHT_SPECTRUM">>, <<"X">>}
Outcomes == \A a, b \in BOOLEAN, cs \in Asks, db \in {7, 8} : LET s == S(a, b)  cmd == Cmd(cs, db)  full == S(a \/ "DATA" \in RangeOf(cs), b \/ "WEIGHT_SPECTRUM" \in RangeOf(cs)) IN
  /\ (CanCompress(s, cmd) /\ ~Idle(s, cmd)) => (CompressOK(s, cmd, 0, full) /\ ~CompressOK(s, cmd, 1, s) /\ ~CompressOK(s, cmd, 0, s))
  /\ (~CanCompress(s, cmd) /\ ~Idle(s, cmd)) => (CompressOK(s, cmd, 1, s) /\ ~CompressOK(s, cmd, 0, s) /\ (full # s => ~CompressOK(s, cmd, 1, full)))
  /\ Idle(s, cmd) => CompressOK(s, cmd, 0, s)
  /\ (rows # <<>> /\ Regular(rows)) => (Idle(full, [cmd EXCEPT !.db = 8]) \/ "X" \in RangeOf(cs))
  /\ DecompressOK(full, 0, S(FALSE, FALSE)) /\ DecompressOK(S(FALSE, FALSE), 0, S(FALSE, FALSE)) /\ (a \/ b => ~DecompressOK(s, 0, s))
=============================================================================
