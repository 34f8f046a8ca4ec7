--------------------------- MODULE SettingsTrace -----------------------------
(* Judges recorded histories of managers and tables against Settings. *)
EXTENDS Settings, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FF == INSTANCE FileFormat
VARIABLES mg, tb, l
vars == <<mg, tb, l>>
E == Trace[l]
M == 1..4
T == 1..3
NoTab == [def |-> FALSE]
Clear == mg' = [m \in M |-> None] /\ tb' = [t \in T |-> NoTab]
Keep == UNCHANGED <<mg, tb>>
SetM(m, s) == mg' = [mg EXCEPT ![m] = s] /\ UNCHANGED tb
SetT(t, s) == tb' = [tb EXCEPT ![t] = s] /\ UNCHANGED mg
Rep == [name |-> E.r.name, db |-> E.r.db, wb |-> E.r.wb, dist |-> E.r.dist, norm |-> E.r.norm, nu |-> E.r.nu, trunc |-> E.r.trunc]
HdrOK(s) == LET h == FF!Header(E.f) IN
  /\ Len(E.f) >= FF!HeaderEnd(Len(s.name)) /\ h.name = s.name /\ h.db = s.db /\ h.wb = s.wb /\ h.dist \in 0..3 /\ h.norm \in 0..2 /\ h.major = 1 /\ h.minor = 0
  /\ FF!Dists[h.dist + 1] = s.dist /\ FF!Norms[h.norm + 1] = s.norm /\ (s.dist = "StudentsT" => h.nu = s.nu) /\ (s.dist = "TruncatedGaussian" => h.trunc = s.trunc)
(* the largest error, in 1/1000 of the largest value *)
Fine(s) == s.dist = "Uniform" /\ s.db >= 10 /\ s.wb >= 8
DevOK(s) == ~s.def \/ (E.dev >= 0 /\ E.dev <= (IF Fine(s) THEN 20 ELSE 4000))
Cols == E.cols
Good == E.ok = 1
Is(x) == E.e = x
Bad == [def |-> TRUE, bad |-> TRUE]
(* a manager with settings that do not exist may be refused right away or when it is used *)
MakeM(s) == IF SettingsOK(s) /\ Judged(s) THEN Good /\ SetM(E.m, s) ELSE IF E.ok = 1 THEN SetM(E.m, s) ELSE SetM(E.m, None)
Step ==
  \/ Is("run") /\ Clear
  \/ Is("new") /\ MakeM(New(E.name, E.db, E.wb))
  \/ Is("rec") /\ MakeM(FromRecord(E.name, E.db, E.wb, E.dist, E.norm, E.nu, E.trunc))
  \/ Is("dist") /\ Good /\ SetM(E.m, SetDist(mg[E.m], E.dist, E.par))
  \/ Is("norm") /\ Good /\ SetM(E.m, SetNorm(mg[E.m], E.norm))
  \/ Is("static") /\ Good /\ SetM(E.m, SetStatic(mg[E.m]))
  \/ Is("spec") /\ Good /\ SetM(E.m, FromSpec(IF E.from > 0 THEN mg[E.from] ELSE tb[E.fromt].set, E.name))
  \/ Is("clone") /\ Good /\ SetM(E.m, Clone(mg[E.from]))
  \/ Is("rep") /\ Good /\ (Same(Rep, mg[E.m]) = TRUE) /\ E.r.type = "DyscoStMan" /\ Keep
  \/ Is("mk") /\ (IF mg[E.m].def /\ TableOK(mg[E.m], Cols)
                 THEN (Good \/ (E.ok = 0 /\ ~Judged(mg[E.m]))) /\ SetT(E.t, IF E.ok = 1 THEN [def |-> TRUE, set |-> mg[E.m], cols |-> Cols, wr |-> 0, sh |-> 0] ELSE NoTab)
                 ELSE E.ok = 0 /\ SetT(E.t, NoTab))
  \/ Is("plain") /\ Good /\ SetT(E.t, [def |-> TRUE, set |-> None, cols |-> <<>>, wr |-> 0, sh |-> 0])
  \/ Is("add") /\ LET s == IF E.m > 0 THEN mg[E.m] ELSE tb[E.t].set IN
                  IF s.def /\ TableOK(s, Cols) THEN (Good \/ (E.ok = 0 /\ ~Judged(s))) /\ SetT(E.t, IF E.ok = 1 THEN [tb[E.t] EXCEPT !.set = s, !.cols = @ \o Cols] ELSE tb[E.t])
                  ELSE E.ok = 0 /\ Keep
  \/ Is("cols") /\ Good /\ E.n = Len(tb[E.t].cols) /\ Keep
  \/ Is("wr") /\ Good /\ SetT(E.t, [tb[E.t] EXCEPT !.wr = @ + 1, !.sh = E.shift])
  \/ Is("dev") /\ Good /\ DevOK(tb[E.t].set) = TRUE /\ Keep
  \/ (Is("close") \/ Is("open")) /\ Good /\ Keep
  \/ (Is("rept") \/ Is("info")) /\ Good /\ ((tb[E.t].set.def /\ Judged(tb[E.t].set) => Same(Rep, tb[E.t].set)) = TRUE) /\ Keep
  \/ Is("hdr") /\ Good /\ ((Judged(tb[E.t].set) => HdrOK(tb[E.t].set)) = TRUE) /\ Keep
  \/ Is("deep") /\ Good /\ SetT(E.t, [tb[E.from] EXCEPT !.set.static = FALSE, !.wr = 2])
  (* tables with equal settings and static seeds to which the same was written are equal *)
  \/ Is("cmp") /\ Good /\ LET a == tb[E.t]  b == tb[E.with] IN
       /\ ((SameSettings(a.set, b.set) /\ a.set.static /\ b.set.static /\ a.cols = b.cols /\ a.wr = 1 /\ b.wr = 1 /\ a.sh = b.sh) => E.eq = 1) = TRUE
       /\ Keep
  \/ Is("end") /\ Keep
Init == l = 1 /\ mg = [m \in M |-> None] /\ tb = [t \in T |-> NoTab]
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
