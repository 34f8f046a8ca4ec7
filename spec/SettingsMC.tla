----------------------------- MODULE SettingsMC ------------------------------
(* Small exhaustive model of Settings: managers, tables with a header as bytes (FileFormat), copies and reopening. What a table had when it
   was made is kept apart in "first". *)
EXTENDS Settings, TLC
FF == INSTANCE FileFormat
VARIABLES mg, tb, first, n
vars == <<mg, tb, first, n>>
CONSTANT MaxSteps
Names == {<<68>>, <<65, 66>>}
Pars == {D0, D25}
M == 1..2
T == 1..2
(* a table that is open has the settings in memory, one that is closed only the bytes of its header *)
Bytes(s) == FF!HeaderBytes([cols |-> <<1, 3>>, np |-> 1, nc |-> 1, norm |-> s.norm, dist |-> s.dist, db |-> s.db, wb |-> s.wb, rpb |-> 1, nant |-> 2, name |-> s.name, nu |-> s.nu, trunc |-> s.trunc, pad0 |-> 0, pad1 |-> 0, pad2 |-> 0])
FromBytes(f) == LET h == FF!Header(f) IN [def |-> TRUE, name |-> h.name, db |-> h.db, wb |-> h.wb, dist |-> FF!Dists[h.dist + 1], norm |-> FF!Norms[h.norm + 1], nu |-> h.nu, trunc |-> h.trunc, static |-> FALSE]
Init == mg = [m \in M |-> None] /\ tb = [t \in T |-> None] /\ first = [t \in T |-> None] /\ n = 0
SetM(m, s) == mg' = [mg EXCEPT ![m] = s] /\ UNCHANGED <<tb, first>>
SetT(t, s) == tb' = [tb EXCEPT ![t] = s] /\ UNCHANGED <<mg, first>>
Make == \E m \in M, nm \in Names, db \in {2, 16}, d \in DistNames : (d = "TruncatedGaussian" => SetM(m, New(nm, db, 12))) /\ (d # "TruncatedGaussian" => SetM(m, FromRecord(nm, db, 6, d, "RF", D25, D0)))
Change == \E m \in M : mg[m].def /\ ((\E d \in DistNames, p \in Pars : SetM(m, SetDist(mg[m], d, p))) \/ (\E no \in NormNames : SetM(m, SetNorm(mg[m], no))) \/ SetM(m, SetStatic(mg[m])))
Copy == \E a, b \in M : mg[a].def /\ (SetM(b, Clone(mg[a])) \/ \E nm \in Names : SetM(b, FromSpec(mg[a], nm)))
MkTable == \E m \in M, t \in T : mg[m].def /\ tb' = [tb EXCEPT ![t] = [def |-> TRUE, open |-> TRUE, set |-> mg[m], f |-> <<>>]] /\ first' = [first EXCEPT ![t] = mg[m]] /\ UNCHANGED mg
Close == \E t \in T : tb[t].def /\ tb[t].open /\ SetT(t, [tb[t] EXCEPT !.open = FALSE, !.f = Bytes(tb[t].set), !.set = None])
(* opened with a manager of other settings: those do not count *)
Open == \E t \in T : tb[t].def /\ ~tb[t].open /\ SetT(t, [tb[t] EXCEPT !.open = TRUE, !.set = FromBytes(tb[t].f), !.f = <<>>])
FromTable == \E t \in T, m \in M, nm \in Names : tb[t].def /\ tb[t].open /\ SetM(m, FromSpec(tb[t].set, nm))
Deep == \E t, u \in T : t # u /\ tb[t].def /\ tb[t].open /\ tb' = [tb EXCEPT ![u] = [def |-> TRUE, open |-> TRUE, set |-> FromSpec(tb[t].set, tb[t].set.name), f |-> <<>>]] /\ first' = [first EXCEPT ![u] = first[t]] /\ UNCHANGED mg
Next == n < MaxSteps /\ n' = n + 1 /\ (Make \/ Change \/ Copy \/ MkTable \/ Close \/ Open \/ FromTable \/ Deep)
Spec == Init /\ [][Next]_vars
Persist == \A t \in T : tb[t].def => Same(IF tb[t].open THEN tb[t].set ELSE FromBytes(tb[t].f), first[t])
Refusal == \A m \in M : mg[m].def => TableOK(mg[m], <<[name |-> "DATA", type |-> "Complex", kind |-> "direct", shape |-> <<1, 1>>]>>)
                                  /\ ~TableOK([mg[m] EXCEPT !.db = 5], <<[name |-> "DATA", type |-> "Complex", kind |-> "direct", shape |-> <<1, 1>>]>>)
                                  /\ ~TableOK(mg[m], <<[name |-> "WEIGHT_SPECTRUM", type |-> "Complex", kind |-> "direct", shape |-> <<1, 1>>]>>)
                                  /\ ~TableOK(mg[m], <<[name |-> "DATA", type |-> "Complex", kind |-> "direct", shape |-> <<0, 1>>]>>)
=============================================================================
