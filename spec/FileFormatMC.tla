---------------------------- MODULE FileFormatMC -----------------------------
(* What is written according to the layout is read back, chunks do not overlap and truncated or altered files are refused. *)
EXTENDS FileFormat
VARIABLES h, blocks, ok
vars == <<h, blocks, ok>>
Num(n) == [i \in 1..8 |-> IF i = 8 THEN n ELSE 0]
H == {[cols |-> c, np |-> np, nc |-> nc, norm |-> no, dist |-> "Uniform", db |-> d, wb |-> w, rpb |-> r, nant |-> 2, name |-> nm, nu |-> Num(0), trunc |-> Num(64), pad0 |-> p, pad1 |-> p, pad2 |-> 2 * p] :
        c \in {<<1>>, <<3>>, <<1, 3>>, <<3, 1>>, <<1, 2>>}, np \in {1, 2}, nc \in {1, 3}, no \in {"AF", "RF", "Row"}, d \in {2, 3, 10}, w \in {6, 12}, r \in {1, 3}, nm \in {<<>>, <<68, 121>>}, p \in {0, 4}}
Chunk(hh, k, j) == LET w == IsWeight(hh.cols[j])  b == IF w THEN hh.wb ELSE hh.db IN
  [m |-> [i \in 1..MetaCount(hh.norm, w, hh.rpb, hh.np, hh.nc, hh.nant) |-> k * 10 + i], s |-> [i \in 1..SymCount(w, hh.rpb, hh.np, hh.nc) |-> (i * 7 + k * 5 + j * 3) % P!P2[b + 1]]]
Init == h \in H /\ blocks = [k \in 1..2 |-> [j \in DOMAIN h.cols |-> Chunk(h, k, j)]] /\ ok = FALSE
RoundTrip ==
  LET f == FileBytes(h, blocks)  hd == Header(f)  s == Settings(hd, h.cols, h.np, h.nc) IN
  /\ Acceptable(f, h.cols) /\ ~Acceptable(f, h.cols \o <<1>>)
  /\ hd.name = h.name /\ hd.rpb = h.rpb /\ hd.nant = h.nant /\ s.norm = h.norm /\ s.dist = h.dist /\ hd.db = h.db /\ hd.wb = h.wb /\ hd.nu = h.nu /\ hd.trunc = h.trunc
  /\ hd.bsize = BlockSize(s) /\ Len(f) = hd.size + 2 * hd.bsize
  /\ \A k \in {0, 3, 15, 16, 17, HeaderEnd(Len(h.name)) - 1, hd.coff, hd.coff + 11} : k < hd.coff + 12 => ~Acceptable(SubSeq(f, 1, k), h.cols)
  /\ \A k \in 1..2, j \in DOMAIN h.cols :
       LET w == IsWeight(h.cols[j])  o == hd.size + (k - 1) * hd.bsize + ChunkOffset(s, j)  n == MetaCount(s.norm, w, s.rpb, s.np, s.nc, s.nant) IN
       /\ \A i \in 1..n : F32(f, o + 4 * (i - 1)) = (blocks[k][j].m[i] + 127) * 8388608
       /\ \A i \in DOMAIN blocks[k][j].s : SymAt(f, o + 4 * n, i - 1, IF w THEN s.wb ELSE s.db) = blocks[k][j].s[i]
Next == ~ok /\ ok' = RoundTrip /\ UNCHANGED <<h, blocks>>
Spec == Init /\ [][Next]_vars
Stuck == ok = TRUE \/ RoundTrip
=============================================================================
