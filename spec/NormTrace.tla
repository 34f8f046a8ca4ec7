------------------------------ MODULE NormTrace ------------------------------
(***************************************************************************)
(* Judges what the storage manager made of generated data sets. Per         *)
(* component: cls is what was read (0 a number, 1 NaN, 2 infinite, 3 zero),   *)
(* le is 64 log2 |read - written| (-99999 if they are equal). Per visibility, *)
(* sc is 64 log2 of the highest value that its scale factors in the file can  *)
(* represent. gap is 64 log2 of the largest distance between two levels       *)
(* relative to the highest level.                                            *)
(***************************************************************************)
EXTENDS Normalization, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
AFSlack == 6
R == E.R
V == E.np * E.nc
Cross(r) == E.a1[r] # E.a2[r]
MagOf(blk) == [r \in DOMAIN blk |-> [i \in DOMAIN blk[r] |-> Mag(blk[r][i])]]
(* For AF the scale is compared with the gains where the block is filled: the *)
(* cross-correlations of a polarization that are finite and not zero are all  *)
(* those of a set of antennas and a set of channels.                         *)
Filled(blk, p) ==
  LET rows == {r \in 1..R : Cross(r)}  vis == {i \in 1..V : PolOf(i, E.np) = p}
      good == {<<r, i>> \in rows \X vis : Mag(blk[r][i]) # None}
      ants == {E.a1[g[1]] : g \in good} \cup {E.a2[g[1]] : g \in good}
      chs == {g[2] : g \in good}
  IN \A r \in rows, i \in vis : (<<r, i>> \in good) = (E.a1[r] \in ants /\ E.a2[r] \in ants /\ i \in chs)
(* For RF, a row of which the only finite components are next to non-finite   *)
(* ones may or may not be given a factor of its own; the channels are then    *)
(* not compared.                                                             *)
Odd(blk, Mg, p) == \E r \in 1..R : LET I == {i \in 1..V : PolOf(i, E.np) = p} IN
                      (\A i \in I : Mg[r][i] = None) /\ (\E i \in I, c \in 1..2 : blk[r][i][c] < 900)
(* the scale is large enough to represent the block and no larger than needed *)
ScaleOK(b) ==
  LET blk == E.X[b]  Mg == MagOf(blk) IN
  /\ \A r \in 1..R : \A i \in 1..V : Mg[r][i] = None \/ (E.norm = "AF" /\ ~Cross(r)) \/ 64 * Mg[r][i] <= E.sc[b][r][i] + 1
  /\ CASE E.norm = "Row" -> LET S == RowScale(Mg, R, V, E.np) IN \A r \in 1..R : \A i \in 1..V : Mg[r][i] # None => E.sc[b][r][i] <= 64 * S[r][i] + 1
       [] E.norm = "RF" -> LET S == RFScale(Mg, R, V, E.np) IN \A r \in 1..R : \A i \in 1..V : (Mg[r][i] # None /\ ~Odd(blk, Mg, PolOf(i, E.np))) => E.sc[b][r][i] <= 64 * S[r][i] + 1
       [] E.norm = "AF" -> LET S == AFScale(E.ea, E.eb, E.a1, E.a2, R, V, AFSlack) IN
            \A p \in 1..E.np : Filled(blk, p) => \A r \in 1..R : \A i \in {i \in 1..V : PolOf(i, E.np) = p} :
                                                  (Cross(r) /\ Mg[r][i] # None) => E.sc[b][r][i] <= 64 * S[r][i]
(* the numbers that are read *)
CompOK(x, other, cls, le, sc, bounded) ==
  IF NonFinite(x) THEN cls = 1
  ELSE IF x = Zero THEN cls = 3 /\ le = -99999
  ELSE IF NonFinite(other) \/ ~bounded THEN cls \in {0, 3}
  ELSE cls \in {0, 3} /\ le <= sc + E.gap + 2
TNorm == /\ l <= Len(Trace) /\ E.e = "norm" /\ E.res = "ok" /\ l' = l + 1
         /\ \A b \in 1..E.nb :
              /\ ScaleOK(b)
              /\ \A r \in 1..R : \A i \in 1..V : \A c \in 1..2 :
                    CompOK(E.X[b][r][i][c], E.X[b][r][i][3 - c], E.cls[b][r][i][c], E.le[b][r][i][c], E.sc[b][r][i], E.norm # "AF" \/ Cross(r))
Init == l = 1
Next == TNorm
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
