------------------------------- MODULE FileGen -------------------------------
(***************************************************************************)
(* Generates storage files, as bytes, according to FileFormat: with any       *)
(* settings, gaps in the header, blocks that are missing at the end and rows *)
(* beyond the last block. Kind "w": only settings and a table geometry, the  *)
(* file is written by the implementation.                                    *)
(***************************************************************************)
EXTENDS FileFormat, TLC, Json, Randomization
VARIABLES sc, done
vars == <<sc, done>>
Pick(S) == RandomElement(S)
Rnd(n) == RandomElement(0..n-1)
D(dist) == CASE dist = "StudentsT" -> Pick({<<1, 63, 240>>, <<3, 64, 8>>, <<10, 64, 36>>})
             [] dist = "TruncatedGaussian" -> Pick({<<10, 63, 240>>, <<15, 63, 248>>, <<25, 64, 4>>, <<40, 64, 16>>})
             [] OTHER -> <<0, 0, 0>>
Dbl(d) == <<0, 0, 0, 0, 0, 0, d[3], d[2]>>
Rand(x) == \E dist \in {Pick({"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"})}, size \in {Rnd(20)}, npr \in {Pick({1, 2, 3, 4})}, ncr \in {Pick({1, 2, 3, 5})} : \E d \in {D(dist)},
   rpb \in {IF size = 0 THEN Pick({1, 2}) ELSE IF size = 1 THEN Pick({37, 64, 66, 130}) ELSE Pick({1, 2, 3, 3, 4, 6})} : sc' = <<
  [kind |-> Pick({"f", "f", "w"}), cols |-> Pick({<<1>>, <<1>>, <<3>>, <<1, 3>>, <<3, 1>>, <<1, 2>>, <<2, 3, 1>>, <<1, 2, 3, 4>>}), np |-> IF size < 2 THEN 1 ELSE npr, nc |-> IF size = 0 THEN Pick({64, 129, 257}) ELSE IF size = 1 THEN Pick({1, 2}) ELSE ncr,
   norm |-> Pick({"AF", "RF", "Row"}), dist |-> dist, par |-> d[1], nu |-> IF dist = "StudentsT" THEN Dbl(d) ELSE Zeros(8), trunc |-> IF dist = "TruncatedGaussian" THEN Dbl(d) ELSE Zeros(8),
   db |-> Pick({2, 3, 4, 6, 8, 10, 12, 16}), wb |-> Pick({2, 3, 4, 6, 8, 10, 12, 16}), rpb |-> rpb, nb |-> IF size < 2 THEN 1 ELSE Pick({1, 1, 2, 3}),
   name |-> Pick({<<>>, <<68>>, <<68, 121, 115, 99, 111, 83, 116, 77, 97, 110>>, <<84, 119, 111, 32, 119, 111, 114, 100, 115>>, [i \in 1..70 |-> 64 + (i % 50)]}),
   ants |-> Pick({0, 0, 1, 2, 3}), pad0 |-> Pick({0, 0, 4, 7}), pad1 |-> Pick({0, 0, 4, 13}), pad2 |-> Pick({0, 0, 5}), cut |-> Pick({0, 0, 1}), rows |-> Pick({-1, 0, 0, 1, 5}), rev |-> Rnd(2)] >>
(* baselines of the rows: <<antenna1, antenna2>> *)
Base(q) == LET r == q.rpb IN [i \in 1..r |-> CASE q.ants = 0 -> <<i - 1, r>> [] q.ants = 1 -> <<r + 2 - i, (i + 1) % 2>> [] q.ants = 3 -> IF i % 2 = 1 THEN <<i - 1, 256 + i>> ELSE <<255 + i, 300 + i>> [] OTHER -> <<2 * i, 2 * i + 1>>]
NAnt(b, extra) == LET S == UNION {{b[i][1], b[i][2]} : i \in DOMAIN b} IN 1 + extra + (CHOOSE m \in S : \A x \in S : x <= m)
Sy(b, rnd) == IF b = 16 THEN (LET k == rnd % 68 IN IF k = 64 THEN 0 ELSE IF k = 65 THEN 65534 ELSE IF k = 66 THEN 65535 ELSE IF k = 67 THEN 32767 ELSE k * 1024 + (k % 3))
              ELSE IF rnd % 40 = 7 THEN P!P2[b + 1] - 1 ELSE rnd % P!P2[b + 1]
WSy(b, rnd) == rnd % P!P2[b + 1]
Chunk(h, c) == LET w == IsWeight(c)  b == IF w THEN h.wb ELSE h.db IN
  [m |-> [i \in 1..MetaCount(h.norm, w, h.rpb, h.np, h.nc, h.nant) |-> Rnd(41) - 20], s |-> [i \in 1..SymCount(w, h.rpb, h.np, h.nc) |-> IF w THEN WSy(b, Rnd(65536)) ELSE Sy(b, Rnd(65536))]]
Blocks(h) == [k \in 1..h.nb |-> [j \in DOMAIN h.cols |-> Chunk(h, h.cols[j])]]
Cut(h, f) == LET n == Len(h.cols) IN IF h.cut = 0 \/ n = 1 THEN f ELSE SubSeq(f, 1, Len(f) - ChunkSize(h, IsWeight(h.cols[n])))
Init == sc = <<>> /\ done = 0
Next == /\ done < 4 /\ done' = done + 1
        /\ CASE done = 0 -> Rand(done)
             [] done = 1 -> sc' = Append(sc, [b |-> Base(sc[1])])
             [] done = 2 -> LET h == [sc[1] EXCEPT !.rows = IF sc[1].kind = "w" THEN 0 ELSE @] @@ [nant |-> NAnt(sc[2].b, IF sc[1].kind = "w" THEN 0 ELSE sc[1].pad2 % 2)] IN
                            sc' = <<h, sc[2], IF h.kind = "w" THEN <<>> ELSE Blocks(h)>>
             [] done = 3 -> sc' = sc /\ PrintT("@@" \o ToJson(sc[1] @@ [base |-> sc[2].b, f |-> IF sc[1].kind = "w" THEN <<>> ELSE Cut(sc[1], FileBytes(sc[1], sc[3]))]))
Spec == Init /\ [][Next]_vars
=============================================================================
