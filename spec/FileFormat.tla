----------------------------- MODULE FileFormat ------------------------------
(***************************************************************************)
(* Version 1.0 of the storage file, as bytes.                                *)
(*                                                                           *)
(*   header:   u32 headerSize, u32 columnHeaderOffset, u32 columnCount,      *)
(*             u32 length and bytes of the name, u32 rowsPerBlock,           *)
(*             u32 antennaCount, u32 blockSize, u16 major, u16 minor,        *)
(*             u8 dataBits, u8 weightBits, u8 distribution, u8 normalization,*)
(*             double studentTNu, double truncation                          *)
(*   at columnHeaderOffset, per column: u32 size of this sub-header,         *)
(*             u32 blockSize (bytes of the column in a block), u32 antennas  *)
(*   at headerSize: blocks of blockSize bytes; per column a chunk of float   *)
(*             scale factors followed by packed symbols                      *)
(*                                                                           *)
(* All numbers are little endian. A data column has for every row, channel,  *)
(* polarization and component one symbol; a weight column has one for every  *)
(* row and channel.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
P == INSTANCE Packing WITH b <- 0, todo <- 0, in <- <<>>, acc <- 0, nacc <- 0, out <- <<>>, done <- FALSE

Dists == <<"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian">>
Norms == <<"AF", "RF", "Row">>
IsWeight(c) == c = 3                              \* column number 3 holds weights
------------------------------- (* reading *) --------------------------------
U8(f, o) == f[o + 1]
U16(f, o) == f[o + 1] + 256 * f[o + 2]
(* (of numbers that do not fit in 31 bits only the value is lost) *)
U32(f, o) == IF f[o + 4] >= 128 THEN 2147483647 ELSE f[o + 1] + 256 * f[o + 2] + 65536 * f[o + 3] + 16777216 * f[o + 4]
Double(f, o) == SubSeq(f, o + 1, o + 8)
(* float as an integer of which the order is that of the numbers *)
F32(f, o) == LET m == f[o + 1] + 256 * f[o + 2] + 65536 * f[o + 3] + 16777216 * (f[o + 4] % 128) IN IF f[o + 4] >= 128 THEN -m ELSE m
NameLen(f) == U32(f, 12)
Fixed(f) == 28 + NameLen(f) + 24                  \* bytes of the header before the sub-headers, at least
Header(f) == LET n == NameLen(f)  o == 16 + n IN
  [size |-> U32(f, 0), coff |-> U32(f, 4), ncol |-> U32(f, 8), name |-> SubSeq(f, 17, 16 + n),
   rpb |-> U32(f, o), nant |-> U32(f, o + 4), bsize |-> U32(f, o + 8), major |-> U16(f, o + 12), minor |-> U16(f, o + 14),
   db |-> U8(f, o + 16), wb |-> U8(f, o + 17), dist |-> U8(f, o + 18), norm |-> U8(f, o + 19), nu |-> Double(f, o + 20), trunc |-> Double(f, o + 28)]
HeaderEnd(n) == 16 + n + 36
RECURSIVE SubHeaders(_, _, _)
SubHeaders(f, o, k) == IF k = 0 THEN <<>> ELSE <<[at |-> o, size |-> U32(f, o), bsize |-> U32(f, o + 4), nant |-> U32(f, o + 8)]>> \o SubHeaders(f, o + U32(f, o), k - 1)
(* Whether a file can be interpreted as file of the columns cols *)
RECURSIVE SubOK(_, _, _)
SubOK(f, o, k) == k = 0 \/ (Len(f) >= o + 12 /\ SubOK(f, o + U32(f, o), k - 1))
Acceptable(f, cols) ==
  /\ Len(f) >= 16 /\ Len(f) >= HeaderEnd(NameLen(f))
  /\ LET h == Header(f) IN
     /\ h.major = 1 /\ h.minor = 0 /\ h.ncol = Len(cols)
     /\ (\A k \in DOMAIN cols : (IF IsWeight(cols[k]) THEN h.wb ELSE h.db) \in P!BitCounts) /\ h.dist \in 0..3 /\ h.norm \in 0..2
     /\ SubOK(f, h.coff, Len(cols))
-----------------------------------------------------------------------------
(* geometry *)
MetaCount(norm, w, rpb, np, nc, nant) ==
  IF w THEN 1 ELSE CASE norm = "AF" -> np * nc + np * nant [] norm = "RF" -> np * nc + rpb * np [] norm = "Row" -> rpb
SymCount(w, rpb, np, nc) == IF w THEN rpb * nc ELSE rpb * nc * np * 2
ChunkSize(s, w) == 4 * MetaCount(s.norm, w, s.rpb, s.np, s.nc, s.nant) + P!Size(SymCount(w, s.rpb, s.np, s.nc), IF w THEN s.wb ELSE s.db)
RECURSIVE ChunkOffset(_, _)
ChunkOffset(s, k) == IF k = 1 THEN 0 ELSE ChunkOffset(s, k - 1) + ChunkSize(s, IsWeight(s.cols[k - 1]))
BlockSize(s) == ChunkOffset(s, Len(s.cols) + 1)
(* settings s of a file (s.cols, s.np, s.nc come from the table) *)
Settings(h, cols, np, nc) == [cols |-> cols, np |-> np, nc |-> nc, norm |-> Norms[h.norm + 1], dist |-> Dists[h.dist + 1], db |-> h.db, wb |-> h.wb, rpb |-> h.rpb, nant |-> h.nant]
(* symbol i (from 0) of b bits in bytes of which the first is at offset o; same as Packing!Unpack *)
Byte0(f, o) == IF o < Len(f) THEN f[o + 1] ELSE 0
SymAt(f, o, i, b) == LET p == i * b  q == o + (p \div 8) IN ((Byte0(f, q) + 256 * Byte0(f, q + 1) + 65536 * Byte0(f, q + 2)) \div P!P2[(p % 8) + 1]) % P!P2[b + 1]
ASSUME \A b \in P!BitCounts : LET s == P!Pattern(b, 9, 30)  f == P!Pack(s, b) IN \A i \in 1..9 : SymAt(f, 0, i - 1, b) = s[i]
(* indices of the scale factors of a visibility: row r, channel ch, polarization p, antennas x and y (all from 0) *)
Factors(s, r, ch, p, x, y) ==
  CASE s.norm = "AF" -> <<ch * s.np + p, s.np * s.nc + p * s.nant + x, s.np * s.nc + p * s.nant + y>>
    [] s.norm = "RF" -> <<ch * s.np + p, s.np * s.nc + r * s.np + p>>
    [] s.norm = "Row" -> <<r>>
SymIndex(s, w, r, ch, p, c) == IF w THEN r * s.nc + ch ELSE ((r * s.nc + ch) * s.np + p) * 2 + c
------------------------------- (* writing *) --------------------------------
B16(n) == <<n % 256, n \div 256>>
B32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Zeros(n) == [i \in 1..n |-> 0]
FloatOf(e) == B32((e + 127) * 8388608)            \* 2^e
Index(ss, x) == CHOOSE i \in DOMAIN ss : ss[i] = x
(* h: settings with name (codes), nu, trunc (bytes), and gaps: pad0 before the sub-headers, pad1 in each, pad2 after them *)
HeaderBytes(h) ==
  LET coff == 16 + Len(h.name) + 36 + h.pad0  n == Len(h.cols)  size == coff + n * (12 + h.pad1) + h.pad2 IN
  B32(size) \o B32(coff) \o B32(n) \o B32(Len(h.name)) \o h.name \o B32(h.rpb) \o B32(h.nant) \o B32(BlockSize(h)) \o B16(1) \o B16(0)
  \o <<h.db, h.wb, Index(Dists, h.dist) - 1, Index(Norms, h.norm) - 1>> \o h.nu \o h.trunc \o Zeros(h.pad0)
  \o Flat([k \in 1..n |-> B32(12 + h.pad1) \o B32(ChunkSize(h, IsWeight(h.cols[k]))) \o B32(h.nant) \o Zeros(h.pad1)]) \o Zeros(h.pad2)
(* chunk: m, exponents of the scale factors; s, symbols *)
ChunkBytes(h, w, c) == Flat([i \in DOMAIN c.m |-> FloatOf(c.m[i])]) \o P!Pack(c.s, IF w THEN h.wb ELSE h.db)
FileBytes(h, blocks) == HeaderBytes(h) \o Flat([k \in DOMAIN blocks |-> Flat([j \in DOMAIN h.cols |-> ChunkBytes(h, IsWeight(h.cols[j]), blocks[k][j])])])
-----------------------------------------------------------------------------
(* Numbers s m 2^e with m in 2^14..2^15-1, or 0: accurate to 2^-14. *)
Zero == [s |-> 1, m |-> 0, e |-> 0]
FromOrd(v) == LET a == IF v < 0 THEN -v ELSE v  sg == IF v < 0 THEN -1 ELSE 1 IN
  IF a < 8388608 THEN Zero ELSE [s |-> sg, m |-> (8388608 + (a % 8388608)) \div 512, e |-> (a \div 8388608) - 141]
RECURSIVE NormN(_, _, _)
NormN(sg, m, e) == IF m = 0 THEN Zero ELSE IF m >= 32768 THEN NormN(sg, m \div 2, e + 1) ELSE IF m < 16384 THEN NormN(sg, m * 2, e - 1) ELSE [s |-> sg, m |-> m, e |-> e]
Mul(a, b) == NormN(a.s * b.s, a.m * b.m, a.e + b.e)
RECURSIVE Shift(_, _)
Shift(m, k) == IF k <= 0 THEN m ELSE IF k > 30 THEN 0 ELSE m \div (2^k)
(* the value of a in units of 2^E, where E is not less than needed to make it fit *)
Fix(a, E) == IF a.m = 0 THEN 0 ELSE IF a.e >= E THEN a.s * a.m * (2^(a.e - E)) ELSE a.s * Shift(a.m, E - a.e)
Abs(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a >= b THEN a ELSE b
(* |a - b| <= tol (a positive number), with some room for rounding *)
Near(a, b, tol) == LET E == Max2(Max2(a.e, b.e), tol.e) - 8 IN
   IF a.m = 0 /\ b.m = 0 THEN TRUE
   ELSE LET E2 == Max2(IF a.m = 0 THEN -1000 ELSE a.e, Max2(IF b.m = 0 THEN -1000 ELSE b.e, tol.e)) - 8  x == Fix(a, E2)  y == Fix(b, E2) IN
        Abs(x - y) <= Fix(tol, E2) + (Max2(Abs(x), Abs(y)) \div 512) + 2
Close(a, b) == Near(a, b, [s |-> 1, m |-> 16384, e |-> Max2(IF a.m = 0 THEN -1000 ELSE a.e, IF b.m = 0 THEN -1000 ELSE b.e) - 10])
=============================================================================
