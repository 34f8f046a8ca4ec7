---------------------------- MODULE SettingsGen ------------------------------
(* Generates histories of making, copying, describing and reopening managers and tables. *)
EXTENDS Settings, TLC, Json, Randomization
CONSTANT Len1
VARIABLES mg, tb, hist
vars == <<mg, tb, hist>>
Pick(S) == RandomElement(S)
Names == {<<68, 121, 115, 99, 111>>, <<65>>, <<84, 119, 111, 32, 87>>, <<195, 169, 47>>, [i \in 1..90 |-> 65 + (i % 26)]}
(* parameters, as indices in a list of the driver *)
NuIx == 0..7
TrIx == 10..17
ColLists == 1..6
M == 1..4
T == 1..3
Do(o) == hist' = Append(hist, o)
DefM == {m \in M : mg[m].def}
OpenT == {t \in T : tb[t].def /\ tb[t].open}
ClosedT == {t \in T : tb[t].def /\ ~tb[t].open}
Settled == {t \in T : tb[t].def /\ tb[t].wr > 0}
GNew(x) == \E m \in {Pick(M)} : \E n \in {Pick(Names)} : \E db \in {Pick(BitCounts)} : \E wb \in {Pick(BitCounts)} : mg' = [mg EXCEPT ![m] = New(n, db, wb)] /\ UNCHANGED tb /\ Do([op |-> "new", m |-> m, db |-> db, wb |-> wb, name |-> n])
GRec(x) == \E m \in {Pick(M)} : \E n \in {Pick(Names)} : \E db \in {Pick(BitCounts)} : \E wb \in {Pick(BitCounts)} : \E d \in {Pick(DistNames)} : \E no \in {Pick(NormNames)} : \E nu \in {Pick(NuIx)} : \E tr \in {Pick(TrIx)} : \E noNu \in {d # "StudentsT" /\ Pick({TRUE, FALSE})} :
           mg' = [mg EXCEPT ![m] = FromRecord(n, db, wb, d, no, nu, tr)] /\ UNCHANGED tb /\ Do([op |-> "rec", m |-> m, db |-> db, wb |-> wb, name |-> n, dist |-> d, norm |-> no, trunc |-> tr, nu |-> IF noNu THEN -1 ELSE nu])
GDist(x) == \E m \in {Pick(DefM)} : \E d \in {Pick(DistNames)} : \E p \in {Pick(IF d = "StudentsT" THEN NuIx ELSE TrIx)} : mg' = [mg EXCEPT ![m] = SetDist(@, d, p)] /\ UNCHANGED tb /\ Do([op |-> "dist", m |-> m, dist |-> d, par |-> p])
GNorm(x) == \E m \in {Pick(DefM)} : \E n \in {Pick(NormNames)} : mg' = [mg EXCEPT ![m] = SetNorm(@, n)] /\ UNCHANGED tb /\ Do([op |-> "norm", m |-> m, norm |-> n])
GStatic(x) == \E m \in {Pick(DefM)} : mg' = [mg EXCEPT ![m] = SetStatic(@)] /\ UNCHANGED tb /\ Do([op |-> "static", m |-> m])
GSpec(x) == \E m \in {Pick(M)} : \E n \in {Pick(Names)} : \E f \in {Pick(DefM)} : mg' = [mg EXCEPT ![m] = FromSpec(mg[f], n)] /\ UNCHANGED tb /\ Do([op |-> "spec", m |-> m, name |-> n, from |-> f])
GSpecT(x) == \E m \in {Pick(M)} : \E n \in {Pick(Names)} : \E f \in {Pick(OpenT)} : mg' = [mg EXCEPT ![m] = FromSpec(tb[f].set, n)] /\ UNCHANGED tb /\ Do([op |-> "spec", m |-> m, name |-> n, fromt |-> f])
GClone(x) == \E m \in {Pick(M)} : \E f \in {Pick(DefM)} : mg' = [mg EXCEPT ![m] = Clone(mg[f])] /\ UNCHANGED tb /\ Do([op |-> "clone", m |-> m, from |-> f])
GRep(x) == \E m \in {Pick(DefM)} : UNCHANGED <<mg, tb>> /\ Do([op |-> "rep", m |-> m])
GMk(x) == \E t \in {Pick(T)} : \E m \in {Pick(DefM)} : \E c \in {Pick(ColLists)} : tb' = [tb EXCEPT ![t] = [def |-> TRUE, set |-> mg[m], cols |-> c, open |-> TRUE, rw |-> TRUE, wr |-> 0, sh |-> 0]] /\ UNCHANGED mg /\ Do([op |-> "mk", t |-> t, m |-> m, cl |-> c])
GWr(x) == \E t \in {Pick({u \in OpenT : tb[u].rw})} : \E s \in {Pick({0, 0, 1})} : tb' = [tb EXCEPT ![t].wr = @ + 1, ![t].sh = s] /\ UNCHANGED mg /\ Do([op |-> "wr", t |-> t, shift |-> s])
GDev(x) == \E t \in {Pick({u \in OpenT : tb[u].wr > 0})} : UNCHANGED <<mg, tb>> /\ Do([op |-> "dev", t |-> t, shift |-> tb[t].sh])
GClose(x) == \E t \in {Pick(OpenT)} : tb' = [tb EXCEPT ![t].open = FALSE] /\ UNCHANGED mg /\ Do([op |-> "close", t |-> t])
GOpen(x) == \E t \in {Pick(ClosedT)} : \E r \in {Pick({0, 1})} : tb' = [tb EXCEPT ![t].open = TRUE, ![t].rw = (r = 1)] /\ UNCHANGED mg /\ Do([op |-> "open", t |-> t, rw |-> r])
GRept(x) == \E t \in {Pick(OpenT)} : UNCHANGED <<mg, tb>> /\ Do([op |-> Pick({"rept", "info"}), t |-> t])
GHdr(x) == \E t \in {Pick(ClosedT)} : UNCHANGED <<mg, tb>> /\ Do([op |-> "hdr", t |-> t])
GDeep(x) == \E f \in {Pick({u \in OpenT : tb[u].wr > 0})} : \E t \in {Pick(T \ {f})} :
  tb' = [tb EXCEPT ![t] = [def |-> TRUE, set |-> [tb[f].set EXCEPT !.static = FALSE], cols |-> tb[f].cols, open |-> TRUE, rw |-> TRUE, wr |-> 2, sh |-> tb[f].sh]] /\ UNCHANGED mg /\ Do([op |-> "deep", t |-> t, from |-> f])
(* two tables of equal managers, with a static seed *)
GCmp(x) == \E p \in {Pick({q \in T \X T : q[1] < q[2] /\ q[1] \in ClosedT /\ q[2] \in ClosedT})} : UNCHANGED <<mg, tb>> /\ Do([op |-> "cmp", t |-> p[1], with |-> p[2]])
Step(k) == CASE k = 1 -> GNew(0) [] k = 2 -> GRec(0) [] k = 3 -> GDist(0) [] k = 4 -> GNorm(0) [] k = 5 -> GStatic(0) [] k = 6 -> GSpec(0) [] k = 7 -> GSpecT(0) [] k = 8 -> GClone(0) [] k = 9 -> GRep(0)
             [] k = 10 -> GMk(0) [] k = 11 -> GWr(0) [] k = 12 -> GDev(0) [] k = 13 -> GClose(0) [] k = 14 -> GOpen(0) [] k = 15 -> GRept(0) [] k = 16 -> GHdr(0) [] k = 17 -> GDeep(0) [] k = 18 -> GCmp(0)
Enabled == {1, 2} \cup (IF DefM # {} THEN {3, 4, 5, 6, 8, 9, 10, 20, 21} ELSE {}) \cup (IF OpenT # {} THEN {7, 13, 15, 22} ELSE {}) \cup (IF \E u \in OpenT : tb[u].rw THEN {11} ELSE {})
           \cup (IF \E u \in OpenT : tb[u].wr > 0 THEN {12, 17} ELSE {}) \cup (IF ClosedT # {} THEN {14, 16, 23} ELSE {})
(* a whole story at once: a table of manager a, an equal manager b made in some way, and its table; written alike, then compared *)
Twin(x) ==
  \E n \in {Pick(Names)}, how \in {Pick({"spec", "clone", "spect", "setters"})}, c \in {Pick(ColLists)}, sh \in {Pick({0, 1})} :
  LET a == 1  b == 2  s == IF mg[a].def THEN mg[a] ELSE New(n, 4, 4)
      pre == (IF mg[a].def THEN <<>> ELSE <<[op |-> "new", m |-> a, db |-> 4, wb |-> 4, name |-> n]>>) \o <<[op |-> "static", m |-> a], [op |-> "mk", t |-> 1, m |-> a, cl |-> c], [op |-> "wr", t |-> 1, shift |-> sh]>>
      mk2 == CASE how = "spec" -> <<[op |-> "spec", m |-> b, name |-> n, from |-> a]>> [] how = "clone" -> <<[op |-> "clone", m |-> b, from |-> a]>> [] how = "spect" -> <<[op |-> "spec", m |-> b, name |-> n, fromt |-> 1]>>
               [] OTHER -> <<[op |-> "rec", m |-> b, db |-> s.db, wb |-> s.wb, name |-> n, dist |-> s.dist, norm |-> s.norm, trunc |-> IF s.dist = "TruncatedGaussian" THEN s.trunc ELSE 10, nu |-> IF s.dist = "StudentsT" THEN s.nu ELSE -1]>>
      post == <<[op |-> "static", m |-> b], [op |-> "mk", t |-> 2, m |-> b, cl |-> c], [op |-> "wr", t |-> 2, shift |-> sh], [op |-> "close", t |-> 1], [op |-> "close", t |-> 2], [op |-> "cmp", t |-> 1, with |-> 2]>> IN
  /\ hist' = hist \o pre \o mk2 \o post
  /\ mg' = [mg EXCEPT ![a] = [s EXCEPT !.static = TRUE], ![b] = [(IF how = "clone" THEN s ELSE FromSpec(s, n)) EXCEPT !.static = TRUE]]
  /\ tb' = [tb EXCEPT ![1] = [def |-> TRUE, set |-> mg'[a], cols |-> c, open |-> FALSE, rw |-> TRUE, wr |-> 1, sh |-> sh], ![2] = [def |-> TRUE, set |-> mg'[b], cols |-> c, open |-> FALSE, rw |-> TRUE, wr |-> 1, sh |-> sh]]
Init == mg = [m \in M |-> None] /\ tb = [t \in T |-> None] /\ hist = <<>>
Next == IF Len(hist) < Len1 THEN \E k \in {Pick(Enabled)} :
          IF k >= 20 THEN (CASE k \in {20, 21} -> IF Pick(1..4) = 1 THEN Twin(0) ELSE GMk(0) [] k = 22 -> (IF \E u \in OpenT : tb[u].rw THEN GWr(0) ELSE GClose(0)) [] OTHER -> GOpen(0)) ELSE Step(k)
        ELSE /\ hist # <<>> /\ PrintT("@@" \o ToJson(hist)) /\ hist' = [i \in 1..(Len1 + 100) |-> 0] /\ UNCHANGED <<mg, tb>>
Spec == Init /\ [][Len(hist) < Len1 + 100 /\ Next]_vars
=============================================================================
