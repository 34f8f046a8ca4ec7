------------------------------- MODULE Tools ---------------------------------
(***************************************************************************)
(* Measurement sets and what the tools dscompress and decompress make of      *)
(* them. A measurement set s has                                             *)
(*   rows   sequence of [t, f, d, a, b]: time, field, data description and     *)
(*          antennas of each row                                             *)
(*   cols   sequence of columns [name, type, dims, dm, vals, dig, kw, ...]:    *)
(*          dims are the dimensions of each cell (<<>> for one that is not     *)
(*          filled), dm the type of its storage manager, vals the values of    *)
(*          its cells, in 1/1024, dig a digest of the values and kw one of its *)
(*          description and keywords                                          *)
(*   order  names of the columns that are not data, ..., kw, sub: digests of   *)
(*          the keywords of the table and of its subtables                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
NaN == 999999999
BitCounts == {2, 3, 4, 6, 8, 10, 12, 16}
RangeOf(q) == {q[i] : i \in DOMAIN q}
-----------------------------------------------------------------------------
(* Time blocks *)
NewBlock(rows, i) == i = 1 \/ rows[i].t # rows[i - 1].t \/ rows[i].f # rows[i - 1].f \/ rows[i].d # rows[i - 1].d
Starts(rows) == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : NewBlock(rows, i))
BlockEnd(rows, k) == LET st == Starts(rows) IN IF k = Len(st) THEN Len(rows) ELSE st[k + 1] - 1
Baselines(rows, k) == [j \in 1..(BlockEnd(rows, k) - Starts(rows)[k] + 1) |-> <<rows[Starts(rows)[k] + j - 1].a, rows[Starts(rows)[k] + j - 1].b>>]
(* every time block has the same baselines in the same order *)
Regular(rows) ==
  LET st == Starts(rows)
      Of(k) == LET to == IF k = Len(st) THEN Len(rows) ELSE st[k + 1] - 1 IN
               [j \in 1..(to - st[k] + 1) |-> <<rows[st[k] + j - 1].a, rows[st[k] + j - 1].b>>]
      first == Of(1)
  IN  \A k \in DOMAIN st : Of(k) = first
(* what the storage manager needs: baselines that repeat, blocks that change where they do *)
Periodic(rows, n) == /\ \A i \in DOMAIN rows : NewBlock(rows, i) <=> (i - 1) % n = 0
                     /\ \A i \in DOMAIN rows : i > n => rows[i].a = rows[i - n].a /\ rows[i].b = rows[i - n].b
                     /\ Len(rows) % n = 0
-----------------------------------------------------------------------------
(* Columns *)
Names(s) == {s.cols[i].name : i \in DOMAIN s.cols}
Col(s, n) == s.cols[CHOOSE i \in DOMAIN s.cols : s.cols[i].name = n]
TypeFor(n) == IF n = "WEIGHT_SPECTRUM" THEN "Float" ELSE "Complex"
IsDysco(c) == c.dm = "DyscoStMan"
Uniform(c) == \A i \in DOMAIN c.dims : c.dims[i] = c.dims[1] /\ c.dims[i] # <<>>
TwoDim(c) == Len(c.dims[1]) = 2 /\ c.dims[1][1] > 0 /\ c.dims[1][2] > 0
Requested(cmd) == RangeOf(cmd.cols)
ToDo(s, cmd) == {n \in Requested(cmd) \cap Names(s) : ~IsDysco(Col(s, n))}
-----------------------------------------------------------------------------
(* dscompress *)
OptionsOK(cmd) == cmd.bad = "" /\ cmd.db \in BitCounts /\ cmd.wb \in BitCounts
ColumnsExist(s, cmd) == Requested(cmd) \subseteq Names(s) /\ \A n \in Requested(cmd) : Col(s, n).type = TypeFor(n) /\ Col(s, n).isarr
FlagsOK(s, n) == n = "WEIGHT_SPECTRUM" \/ ("FLAG" \in Names(s) /\ Col(s, "FLAG").type = "Bool" /\ Col(s, "FLAG").dims = Col(s, n).dims)
CanCompress(s, cmd) ==
  /\ OptionsOK(cmd) /\ ColumnsExist(s, cmd) /\ s.rows # <<>> /\ Regular(s.rows)
  /\ \A n \in ToDo(s, cmd) : Uniform(Col(s, n)) /\ TwoDim(Col(s, n)) /\ FlagsOK(s, n) /\ ("TEMP_" \o n) \notin Names(s)
(* nothing has to be done: it does not matter whether the measurement set is regular *)
Idle(s, cmd) == OptionsOK(cmd) /\ ColumnsExist(s, cmd) /\ ToDo(s, cmd) = {}
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinOf(_, _, _)
MinOf(v, i, n) == IF n = 1 THEN v[i] ELSE Min2(v[i], MinOf(v, i + 1, n - 1))
RECURSIVE MaxAbs(_, _)
MaxAbs(v, i) == IF i > Len(v) THEN 0 ELSE LET m == MaxAbs(v, i + 1)  x == IF v[i] = NaN THEN 0 ELSE Abs(v[i]) IN IF x > m THEN x ELSE m
(* the error that the settings allow for, in 1/1024, of values not larger than 1 *)
Tol(cmd) == IF cmd.dist = "StudentsT" THEN 20000 ELSE IF cmd.db >= 12 THEN 60 ELSE IF cmd.db >= 8 /\ cmd.dist = "Uniform" THEN 400 ELSE 8000
(* v: values before, w: after, fl: flags, per value; visibilities have two values *)
DataClose(v, w, fl, tol, antennasDiffer) ==
  /\ Len(w) = Len(v)
  /\ \A i \in DOMAIN v : LET k == (i + 1) \div 2  o == IF i % 2 = 1 THEN i + 1 ELSE i - 1 IN
       IF fl[k] = 1 \/ v[i] = NaN THEN w[i] = NaN
       ELSE w[i] # NaN /\ ((v[o] # NaN /\ antennasDiffer[i]) => Abs(w[i] - v[i]) <= tol)
WeightClose(v, w, np, tol) ==
  /\ Len(w) = Len(v)
  /\ \A i \in DOMAIN v : LET b == ((i - 1) \div np) * np + 1 IN Abs(w[i] - MinOf(v, b, np)) <= tol
PerRow(c) == c.dims[1][1] * c.dims[1][2]
Cross(s, c, norm) == [i \in DOMAIN c.vals |-> LET row == s.rows[((i - 1) \div (2 * PerRow(c))) + 1] IN norm # "AF" \/ row.a # row.b]
Visible(c) == [i \in 1..(Len(c.vals) \div 2) |-> 0]
(* a column that was rewritten: one that is stored with Dysco is encoded once more then *)
Rewritten(s, a, b) ==
  \/ a.dig = b.dig
  \/ /\ IsDysco(a) /\ a.dims # <<>>
     /\ IF a.type = "Complex" THEN DataClose(a.vals, b.vals, Visible(a), Tol(a.set), Cross(s, a, a.set.norm))
        ELSE WeightClose(a.vals, b.vals, a.dims[1][1], 2 + (MaxAbs(a.vals, 1) \div (2 * (2^a.set.wb - 1))))
(* everything except the columns in ns *)
OthersSame(s, r, ns, rewritten) ==
  /\ Names(s) \ ns = Names(r) \ ns /\ r.rows = s.rows /\ r.kw = s.kw /\ r.sub = s.sub
  /\ \A n \in Names(s) \ ns : LET a == Col(s, n)  b == Col(r, n) IN
       a.type = b.type /\ a.dims = b.dims /\ a.kw = b.kw /\ IsDysco(a) = IsDysco(b) /\ a.set = b.set /\ (a.dig = b.dig \/ (rewritten /\ Rewritten(s, a, b)))
Unchanged(s, r) == OthersSame(s, r, {}, FALSE) /\ r.order = s.order /\ \A n \in Names(s) : Col(r, n).dm = Col(s, n).dm
SettingsAre(c, cmd) == c.set.db = cmd.db /\ c.set.wb = cmd.wb /\ c.set.dist = cmd.dist /\ c.set.norm = cmd.norm /\ (cmd.dist = "TruncatedGaussian" => c.set.trunc = cmd.trunc)
Values(s, n) == Col(s, n).vals
Compressed(s, r, cmd, n) ==
  LET a == Col(s, n)  b == Col(r, n) IN
  /\ n \in Names(r) /\ b.type = a.type /\ b.dims = a.dims /\ IsDysco(b) /\ SettingsAre(b, cmd)
  /\ IF n = "WEIGHT_SPECTRUM" THEN WeightClose(a.vals, b.vals, a.dims[1][1], 2 + (MaxAbs(a.vals, 1) \div (2 * (2^cmd.wb - 1))))
     ELSE DataClose(a.vals, b.vals, Col(s, "FLAG").vals, (IF cmd.reorder = 1 THEN 2 ELSE 1) * Tol(cmd), Cross(s, a, cmd.norm))
CompressOK(s, cmd, rc, r) ==
  IF Idle(s, cmd) THEN Unchanged(s, r)
  (* a set without rows is compressed or refused *)
  ELSE IF s.rows = <<>> /\ OptionsOK(cmd) /\ ColumnsExist(s, cmd) /\ rc = 0 THEN
    OthersSame(s, r, ToDo(s, cmd), TRUE) /\ \A n \in ToDo(s, cmd) : n \in Names(r) /\ Col(r, n).type = Col(s, n).type /\ IsDysco(Col(r, n)) /\ SettingsAre(Col(r, n), cmd)
  ELSE IF CanCompress(s, cmd) THEN rc = 0 /\ OthersSame(s, r, ToDo(s, cmd), cmd.reorder = 1) /\ \A n \in ToDo(s, cmd) : Compressed(s, r, cmd, n)
  ELSE rc # 0 /\ Unchanged(s, r)
-----------------------------------------------------------------------------
(* decompress *)
Restorable == {"DATA", "WEIGHT_SPECTRUM"}
ToRestore(s) == {n \in Restorable \cap Names(s) : IsDysco(Col(s, n))}
(* a column with the name that is used while a column is replaced is not given up *)
CanRestore(s) == \A n \in ToRestore(s) : ("TEMP_" \o n) \notin Names(s)
DecompressOK(s, rc, r) ==
  IF ToRestore(s) = {} THEN rc = 0 /\ Unchanged(s, r)
  ELSE IF ~CanRestore(s) THEN rc # 0 /\ Unchanged(s, r)
  ELSE /\ rc = 0 /\ OthersSame(s, r, ToRestore(s), FALSE)
       /\ \A n \in ToRestore(s) : LET a == Col(s, n)  b == Col(r, n) IN n \in Names(r) /\ ~IsDysco(b) /\ b.type = a.type /\ b.dims = a.dims /\ b.dig = a.dig
=============================================================================
