------------------------------ MODULE FileTrace ------------------------------
(***************************************************************************)
(* Judges storage files and what was read from them against FileFormat.       *)
(*  file: the bytes f of a file, the settings it was made with, the values    *)
(*        read from the table (ordered integers of the floats, NaN = NaN) and,*)
(*        for a file written by the implementation, the values written (WN if *)
(*        no demand is made on them). lv: the levels (sequence or by symbol), *)
(*        gp: the larger of the gaps next to each level.                      *)
(*  upd:  the file f2 after one row was overwritten, and what was read then.  *)
(*  open: a table with columns cols on file f was opened.                       *)
(*  far:  a file with blocks beyond the range of 32 bits.                     *)
(***************************************************************************)
EXTENDS FileFormat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
NaN == 2143289344
None == 2143289345
Lv(t, s) == IF E.db = 16 THEN t[ToString(s)] ELSE t[s + 1]
HasLv(t, s) == IF E.db = 16 THEN ToString(s) \in DOMAIN t ELSE (s + 1) \in DOMAIN t
Q(b) == P!P2[b + 1] - 1
S(ev) == [cols |-> ev.cols, np |-> ev.np, nc |-> ev.nc, norm |-> ev.norm, dist |-> ev.dist, db |-> ev.db, wb |-> ev.wb, rpb |-> ev.rpb, nant |-> ev.nant]
HeaderOK(f) ==
  LET h == Header(f)  s == S(E) IN
  /\ Acceptable(f, E.cols)
  /\ h.name = E.name /\ h.rpb = E.rpb /\ h.nant = E.nant /\ Norms[h.norm + 1] = E.norm /\ Dists[h.dist + 1] = E.dist /\ h.db = E.db /\ h.wb = E.wb
  /\ (E.dist = "StudentsT" => h.nu = E.nu) /\ (E.dist = "TruncatedGaussian" => h.trunc = E.trunc)
  /\ h.bsize = BlockSize(s)
  /\ LET sub == SubHeaders(f, h.coff, h.ncol) IN \A k \in DOMAIN sub : sub[k].bsize = ChunkSize(s, IsWeight(E.cols[k])) /\ sub[k].nant = E.nant /\ sub[k].at + sub[k].size <= h.size
  /\ h.coff >= HeaderEnd(Len(h.name))
(* the value that file f gives a component, as [n: is NaN, v: approximate number, k: symbol, e: sum of exponents of the factors] *)
RECURSIVE Prod(_, _, _)
Prod(f, o, ix) == IF ix = <<>> THEN [s |-> 1, m |-> 16384, e |-> -14] ELSE Mul(FromOrd(F32(f, o + 4 * ix[1])), Prod(f, o, Tail(ix)))
RECURSIVE Exps(_, _, _)
Exps(f, o, ix) == IF ix = <<>> THEN 0 ELSE (F32(f, o + 4 * ix[1]) \div 8388608) - 127 + Exps(f, o, Tail(ix))
IntOrd(n) == NormN(1, n, 0)
(* sym * max / q, by dividing with 15 bits of precision *)
RECURSIVE Div(_, _)
Div(a, q) == IF a.m = 0 THEN Zero ELSE LET r == [s |-> a.s, m |-> a.m, e |-> a.e] IN NormN(r.s, (r.m * 32768) \div q, r.e - 15)
WVal(f, o, sym, q) == IF sym = 0 THEN Zero ELSE LET n == Mul(FromOrd(F32(f, o)), IntOrd(sym)) IN Div(n, q)
Judge(f, rd, wr, exact) ==
  LET h == Header(f)  s == S(E) IN
  \A j \in DOMAIN E.cols :
    LET w == IsWeight(E.cols[j])  b == IF w THEN s.wb ELSE s.db  mc == MetaCount(s.norm, w, s.rpb, s.np, s.nc, s.nant)  sz == ChunkSize(s, w)
        comp == IF w THEN 1 ELSE 2  per == s.np * s.nc * comp IN
    /\ Len(rd[j]) = E.nrow * per
    /\ \A i \in DOMAIN rd[j] :
         LET row == (i - 1) \div per  x == (i - 1) % per  ch == x \div (s.np * comp)  y == x % (s.np * comp)  p == y \div comp  c == y % comp
             k == row \div s.rpb  r == row % s.rpb  o == h.size + k * h.bsize + ChunkOffset(s, j)  got == rd[j][i]  want == IF wr = <<>> THEN None ELSE wr[j][i] IN
         IF Len(f) < o + sz THEN got = 0
         ELSE LET sym == SymAt(f, o + 4 * mc, SymIndex(s, w, r, ch, p, c), b) IN
              IF w THEN LET v == WVal(f, o, sym, Q(b)) IN
                        /\ Close(FromOrd(got), v) /\ (sym = 0 => got = 0) /\ (exact /\ sym = Q(b) => Abs(got - F32(f, o)) <= 2)
                        /\ want # None => Near(v, FromOrd(want), Div(FromOrd(F32(f, o)), Q(b)))
              ELSE IF sym = Q(b) THEN got = NaN /\ want \in {None, NaN}
              ELSE HasLv(E.lv, sym) /\ LET ix == Factors(s, r, ch, p, E.base[r + 1][1], E.base[r + 1][2])  fac == Prod(f, o, ix)  lev == Lv(E.lv, sym)  v == Mul(FromOrd(lev), fac) IN
                   /\ got # NaN
                   /\ Close(FromOrd(got), v)
                   /\ (exact /\ lev # 0) => LET t == (IF lev < 0 THEN -lev ELSE lev) + Exps(f, o, ix) * 8388608 IN Abs((IF got < 0 THEN -got ELSE got) - t) <= 4 /\ (got < 0) = (lev < 0)
                   /\ (want # None /\ (s.norm # "AF" \/ E.base[r + 1][1] # E.base[r + 1][2])) => want # NaN /\ Near(v, FromOrd(want), Mul(FromOrd(Lv(E.gp, sym)), fac))
RLen(f) == LET h == Header(f) IN Len(f) - h.size
FileOK == /\ E.res = "ok" /\ HeaderOK(E.f)
          /\ (E.kind = "w" => RLen(E.f) = E.nb * BlockSize(S(E)))
          /\ Judge(E.f, E.rd, E.wr, E.kind = "f") /\ (E.twice => E.rd2 = E.rd)
(* the row E.u.row of column E.u.c (index in cols) was given another value *)
UpdOK ==
        /\ E.res = "ok" /\ HeaderOK(E.f2)
        /\ LET h == Header(E.f)  s == S(E)  k == E.u.row \div E.rpb  o == h.size + k * h.bsize + ChunkOffset(s, E.u.j)  sz == ChunkSize(s, IsWeight(E.cols[E.u.j])) IN
           /\ SubSeq(E.f2, 1, h.size) = SubSeq(E.f, 1, h.size)
           /\ Len(E.f2) >= Len(E.f) /\ Len(E.f2) >= o + sz /\ Len(E.f2) <= Max2(Len(E.f), h.size + (k + 1) * h.bsize)
           /\ \A i \in DOMAIN E.f2 : i > h.size => (i > o /\ i <= o + sz) \/ E.f2[i] = IF i <= Len(E.f) THEN E.f[i] ELSE 0
        /\ Judge(E.f2, E.rd, <<>>, FALSE)
OpenOK == /\ E.same
          /\ E.res = (IF E.exists /\ Acceptable(E.f, E.cols) THEN "ok" ELSE "exception")
(* numbers as digits of 15 bits, lowest first *)
Dig(n) == <<n % 32768, n \div 32768, 0, 0>>
RECURSIVE Carry(_, _)
Carry(d, i) == IF i > 4 THEN <<>> ELSE <<d[i] % 32768>> \o Carry(IF i < 4 THEN [d EXCEPT ![i + 1] = @ + (d[i] \div 32768)] ELSE d, i + 1)
TimesDig(d, k) == Carry([i \in 1..4 |-> d[i] * k], 1)
AddDig(d, n) == Carry([i \in 1..4 |-> d[i] + n[i]], 1)
RECURSIVE LeDig(_, _, _)
LeDig(a, b, i) == i = 0 \/ a[i] < b[i] \/ (a[i] = b[i] /\ LeDig(a, b, i - 1))
(* every stretch of non-zero bytes behind the header lies in blocks that were written, and those blocks are not empty *)
FarOK == /\ E.res = "ok"
        /\ LET at == [x \in DOMAIN E.blocks |-> AddDig(TimesDig(Dig(E.bsize), E.blocks[x]), Dig(E.hsize))]
                end == [x \in DOMAIN E.blocks |-> AddDig(TimesDig(Dig(E.bsize), E.blocks[x] + 1), Dig(E.hsize))] IN
           /\ \A i \in DOMAIN E.ext : \E x, y \in DOMAIN E.blocks :
                /\ LeDig(at[x], E.ext[i][1], 4) /\ LeDig(E.ext[i][1], end[x], 4) /\ LeDig(at[y], E.ext[i][2], 4) /\ LeDig(E.ext[i][2], end[y], 4)
                /\ \A k \in E.blocks[x]..E.blocks[y] : \E z \in DOMAIN E.blocks : E.blocks[z] = k
           /\ \A x \in DOMAIN E.blocks : \E i \in DOMAIN E.ext : LeDig(E.ext[i][1], end[x], 4) /\ LeDig(at[x], E.ext[i][2], 4)
           /\ \A i \in DOMAIN E.ends : E.ends[i] = AddDig(TimesDig(Dig(E.bsize), E.last + 1), Dig(E.hsize))
        /\ E.bad = 0
Init == l = 1
OK == CASE E.e = "file" -> FileOK [] E.e = "upd" -> UpdOK [] E.e = "open" -> OpenOK [] E.e = "far" -> FarOK
Next == l <= Len(Trace) /\ OK = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
