------------------------------ MODULE Settings -------------------------------
(***************************************************************************)
(* Settings of storage managers and of tables. A storage manager is made by   *)
(* a constructor, by a specification record or as copy of another one, and    *)
(* can be given other settings until it is used. A table takes the settings   *)
(* of the manager it is made with; they never change: not when the manager is *)
(* given other settings and not by reopening the table. A deep copy of a      *)
(* table has the same settings.                                              *)
(*                                                                           *)
(* Numbers of type double are their 8 bytes, names sequences of character     *)
(* codes.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
BitCounts == {2, 3, 4, 6, 8, 10, 12, 16}
DistNames == {"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"}
NormNames == {"AF", "RF", "Row"}
D25 == <<0, 0, 0, 0, 0, 0, 4, 64>>
D0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
None == [def |-> FALSE]
New(name, db, wb) == [def |-> TRUE, name |-> name, db |-> db, wb |-> wb, dist |-> "TruncatedGaussian", norm |-> "AF", nu |-> D0, trunc |-> D25, static |-> FALSE]
SetDist(s, d, par) == [s EXCEPT !.dist = d, !.nu = IF d = "StudentsT" THEN par ELSE @, !.trunc = IF d = "TruncatedGaussian" THEN par ELSE @]
SetNorm(s, n) == [s EXCEPT !.norm = n]
SetStatic(s) == [s EXCEPT !.static = TRUE]
FromRecord(name, db, wb, d, n, nu, trunc) == [def |-> TRUE, name |-> name, db |-> db, wb |-> wb, dist |-> d, norm |-> n, nu |-> nu, trunc |-> trunc, static |-> FALSE]
(* the record that a manager reports is enough to make an equal one *)
FromSpec(s, name) == [s EXCEPT !.name = name, !.static = FALSE]
Clone(s) == s
(* the settings that matter *)
Par(s) == CASE s.dist = "StudentsT" -> s.nu [] s.dist = "TruncatedGaussian" -> s.trunc [] OTHER -> <<>>
SameSettings(a, b) == a.db = b.db /\ a.wb = b.wb /\ a.dist = b.dist /\ a.norm = b.norm /\ Par(a) = Par(b)
Same(a, b) == a.name = b.name /\ SameSettings(a, b)
(* what can be made *)
SettingsOK(s) == s.dist \in DistNames /\ s.norm \in NormNames /\ s.db # 0 /\ s.wb # 0
KnownColumn(c) == /\ c.kind = "direct" /\ Len(c.shape) = 2 /\ \A i \in 1..2 : c.shape[i] > 0
                  /\ c.type = (IF c.name = "WEIGHT_SPECTRUM" THEN "Float" ELSE "Complex")
ColumnOK(s, c) == KnownColumn(c) /\ (IF c.name = "WEIGHT_SPECTRUM" THEN s.wb ELSE s.db) \in BitCounts
(* a bit count that no column uses: not judged *)
Judged(s) == s.db \in BitCounts /\ s.wb \in BitCounts
TableOK(s, cols) == SettingsOK(s) /\ \A i \in DOMAIN cols : ColumnOK(s, cols[i])
=============================================================================
