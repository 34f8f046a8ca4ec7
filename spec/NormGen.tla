------------------------------- MODULE NormGen -------------------------------
(* Generates data sets with structured dynamic range and non-finite samples. *)
EXTENDS Normalization, TLC, Json, Randomization
CONSTANTS Norms, Flagging          \* one normalization; Flagging: FALSE only finite samples
VARIABLES sc, done
vars == <<sc, done>>
Pick(S) == RandomElement(S)
Rnd(n) == RandomElement(0..n-1)
(* Baselines of n antennas in one of several orders *)
Pairs(n, autos) == LET all == {<<a, b>> \in (0..n-1) \X (0..n-1) : IF autos THEN a <= b ELSE a < b} IN all
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o Order(S \ {x})
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
Flip(bl, how) == [k \in DOMAIN bl |-> IF how = 1 \/ (how = 2 /\ k % 2 = 0) THEN <<bl[k][2], bl[k][1]>> ELSE bl[k]]
(* which samples are hit by flag rule f *)
Hit(f, b, r, ch, p, a, c) ==
  CASE f.k = "row" -> b = f.b /\ r = f.r [] f.k = "chan" -> ch = f.ch /\ (f.all \/ b = f.b) [] f.k = "pol" -> p = f.p /\ (f.all \/ b = f.b)
    [] f.k = "ant" -> (a[1] = f.a \/ a[2] = f.a) /\ (f.all \/ b = f.b) [] f.k = "block" -> b = f.b
    [] f.k = "chpol" -> ch = f.ch /\ p = f.p [] f.k = "antpol" -> (a[1] = f.a \/ a[2] = f.a) /\ p = f.p
    [] f.k = "one" -> b = f.b /\ r = f.r /\ ch = f.ch /\ p = f.p [] f.k = "first" -> r = 1 [] f.k = "last" -> ch = 1 /\ p = 1
    [] f.k = "autos" -> a[1] = a[2] [] OTHER -> FALSE
(* The choices are made in steps, each of which is kept in a variable *)
Par(x) == \E n \in {Pick({2, 3, 3, 4, 5})}, size \in {Rnd(24)}, npr \in {Pick({1, 2, 4})}, ncr \in {Pick({1, 2, 3, 5})}, nbr \in {Pick({2, 3})} : sc' = <<
  [norm |-> CHOOSE m \in Norms : TRUE, n |-> IF size = 0 THEN Pick({2, 3}) ELSE IF size = 1 THEN Pick({17, 23, 24}) ELSE n,
   autos |-> IF size < 2 THEN FALSE ELSE Pick({TRUE, FALSE, FALSE}), np |-> IF size < 2 THEN 1 ELSE npr,
   nc |-> IF size = 0 THEN Pick({255, 257, 300}) ELSE IF size = 1 THEN Pick({1, 2}) ELSE ncr, nb |-> IF size < 2 THEN 2 ELSE nbr,
   num |-> Pick({"small", "small", "small", "apart", "far", "veryfar"}),
   w |-> Pick({0, 2, 5}), wc |-> Pick({0, 3, 12}), rowwise |-> Pick(BOOLEAN), depth |-> IF "AF" \in Norms THEN Pick({1, 3, 3}) ELSE Pick({1, 3, 6}), base |-> Rnd(21) - 10,
   nf |-> IF Flagging THEN Rnd(5) ELSE 0, dens |-> IF Flagging THEN Pick({0, 0, 5, 30}) ELSE 0, ax |-> Pick({0, 0, 6}), sorted |-> Pick(BOOLEAN), flip |-> Rnd(3)] >>
(* the numbers that the antennas have in the table *)
Number(q, a) == CASE q.num = "small" -> a [] q.num = "apart" -> 3 * a + 1 [] q.num = "far" -> IF a = 0 THEN 0 ELSE 253 + a [] OTHER -> IF q.np = 1 THEN (IF a = 0 THEN 1 ELSE 510 + a) ELSE 254 + 2 * a
Lines(q) == [bl |-> Flip(IF q.sorted THEN Order(Pairs(q.n, q.autos)) ELSE Shuffle(Pairs(q.n, q.autos)), q.flip)]
Gains(q, bl) ==
  [ea |-> [a \in 1..q.n |-> [p \in 1..q.np |-> Rnd(2 * q.w + 1) - q.w]],
   eb |-> [i \in 1..q.np * q.nc |-> Rnd(2 * q.wc + 1) - q.wc],
   er |-> [r \in 1..Len(bl) |-> IF q.rowwise /\ q.norm # "AF" THEN Rnd(21) - 10 ELSE 0],
   fl |-> [k \in 1..q.nf |-> [k |-> Pick({"row", "chan", "pol", "ant", "block", "chpol", "antpol", "one", "one", "first", "last", "autos"}), b |-> 1 + Rnd(q.nb), r |-> 1 + Rnd(Len(bl)),
              ch |-> 1 + Rnd(q.nc), p |-> 1 + Rnd(q.np), a |-> Rnd(q.n), all |-> Pick(BOOLEAN), v |-> Pick({NaN, NaN, NaN, PInf, MInf, Zero, Zero}), c |-> Pick({0, 0, 0, 1, 2})]]]
Top(q, g, bl, r, i) == LET a == bl[r]  p == PolOf(i, q.np) IN
  q.base + g.ea[a[1] + 1][p] + g.ea[a[2] + 1][p] + g.eb[i] + g.er[r] + (IF a[1] = a[2] THEN q.ax ELSE 0)
Cell(q, g, bl, b, r, i, c, rnd) ==
  LET hits == {k \in 1..q.nf : Hit(g.fl[k], b, r, ((i - 1) \div q.np) + 1, PolOf(i, q.np), bl[r], c)} IN
  IF hits # {} THEN LET f == g.fl[CHOOSE k \in hits : \A m \in hits : k <= m] IN
          (IF f.c = 0 \/ f.c = c THEN f.v ELSE Top(q, g, bl, r, i) - q.depth - 3)
  ELSE IF rnd < q.dens THEN Pick({NaN, NaN, PInf, Zero})
  ELSE Top(q, g, bl, r, i) - Rnd(q.depth)
(* a component next to a non-finite one is small, so that it is no matter whether it is taken into account *)
Fix(x) == IF NonFinite(x[1]) /\ ~NonFinite(x[2]) THEN <<x[1], IF x[2] = Zero THEN Zero ELSE -90>>
          ELSE IF NonFinite(x[2]) /\ ~NonFinite(x[1]) THEN <<IF x[1] = Zero THEN Zero ELSE -90, x[2]>> ELSE x
Out(q, g, bl, X) ==
  [norm |-> q.norm, n |-> q.n, np |-> q.np, nc |-> q.nc, nb |-> q.nb, R |-> Len(bl), a1 |-> [r \in DOMAIN bl |-> bl[r][1]], a2 |-> [r \in DOMAIN bl |-> bl[r][2]], num |-> [a \in 1..q.n |-> Number(q, a - 1)],
   ea |-> g.ea, eb |-> [i \in DOMAIN g.eb |-> g.eb[i] + q.base], flags |-> g.fl,
   X |-> [b \in DOMAIN X |-> [r \in DOMAIN X[b] |-> [i \in DOMAIN X[b][r] |-> Fix(X[b][r][i])]]]]
Init == sc = <<>> /\ done = 0
Next == /\ done < 5 /\ done' = done + 1
        /\ CASE done = 0 -> Par(done)
             [] done = 1 -> sc' = Append(sc, Lines(sc[1]))
             [] done = 2 -> sc' = Append(sc, Gains(sc[1], sc[2].bl))
             [] done = 3 -> LET q == sc[1] bl == sc[2].bl IN
                  sc' = Append(sc, [b \in 1..q.nb |-> [r \in 1..Len(bl) |-> [i \in 1..q.np * q.nc |-> [c \in 1..2 |-> Cell(q, sc[3], bl, b, r, i, c, Rnd(100))]]]])
             [] done = 4 -> PrintT("@@" \o ToJson(Out(sc[1], sc[3], sc[2].bl, sc[4]))) /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
