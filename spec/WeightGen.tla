------------------------------ MODULE WeightGen ------------------------------
(* Generates tables of weights and updates of a row. *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
VARIABLES sc, done
vars == <<sc, done>>
Pick(S) == RandomElement(S)
Rnd(n) == RandomElement(0..n-1)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
Par(x) == \E size \in {Rnd(16)} : sc' = <<[b |-> Pick({2, 3, 4, 6, 8, 10, 12, 16}), np |-> Pick({1, 2, 3, 4}), nc |-> IF size = 0 THEN Pick({255, 256, 300}) ELSE IF size = 1 THEN 1 ELSE Pick({1, 2, 3, 5, 8}),
           R |-> IF size = 0 THEN 2 ELSE IF size = 1 THEN Pick({255, 258}) ELSE Pick({1, 2, 3, 5, 7}), nb |-> IF size < 2 THEN 2 ELSE Pick({2, 3}),
           kinds |-> [k \in 1..3 |-> Pick({"zero", "const", "full", "full", "log", "log", "two", "one", "tie", "small"})], top |-> [k \in 1..3 |-> Pick({1, 2, 3, 100, 4095, 8191, 1 + Rnd(8191)})],
           e |-> Pick({-149, -140, -127, -30, -10, -3, 0, 0, 0, 10, 60, 100, 114}), pol |-> Pick({"same", "rnd", "hi", "z"}), norm |-> Pick({"AF", "RF", "Row"}), dist |-> Pick({"Uniform", "TruncatedGaussian", "Gaussian"})]>>
Q(b) == IF b = 16 THEN 65535 ELSE 2^b - 1
W(q, k, r, c, rnd) ==
  LET t == q.top[k] IN
  CASE q.kinds[k] = "zero" -> 0 [] q.kinds[k] = "const" -> t [] q.kinds[k] = "full" -> rnd % (t + 1) [] q.kinds[k] = "log" -> P2[1 + (rnd % 13)]
    [] q.kinds[k] = "two" -> IF rnd % 2 = 0 THEN 0 ELSE t [] q.kinds[k] = "one" -> IF r = 1 + (q.top[1] % q.R) /\ c = 1 + (q.top[2] % q.nc) THEN t ELSE 0
    [] q.kinds[k] = "tie" -> LET m == ((2 * (rnd % (Q(q.b) + 1)) + 1) * t) \div (2 * Q(q.b)) IN (IF m + (rnd % 3) > t THEN t ELSE m + (rnd % 3))
    [] OTHER -> rnd % 4
Pol(q, w, p, rnd) == CASE q.pol = "same" -> w [] q.pol = "rnd" -> IF rnd % 3 = 0 THEN w ELSE w + (rnd % (8192 - w)) [] q.pol = "hi" -> IF p = 1 + (q.top[3] % q.np) THEN w ELSE 8191 [] OTHER -> IF rnd % 5 = 0 THEN 0 ELSE w
Blocks(q) == [k \in 1..q.nb |-> [r \in 1..q.R |-> [c \in 1..q.nc |-> LET w == W(q, k, r, c, Rnd(65536 * 4)) IN [p \in 1..q.np |-> Pol(q, w, p, Rnd(65536))]]]]
Upd(q) == [b |-> 1 + Rnd(q.nb), r |-> 1 + Rnd(q.R), v |-> Pick({0, 1, 5, 100, Rnd(8192), 8191}), do |-> Pick({0, 1, 1})]
Init == sc = <<>> /\ done = 0
Next == /\ done < 4 /\ done' = done + 1
        /\ CASE done = 0 -> Par(done) [] done = 1 -> sc' = Append(sc, Blocks(sc[1])) [] done = 2 -> sc' = Append(sc, Upd(sc[1]))
             [] done = 3 -> sc' = sc /\ PrintT("@@" \o ToJson([b |-> sc[1].b, np |-> sc[1].np, nc |-> sc[1].nc, nb |-> sc[1].nb, R |-> sc[1].R, e |-> sc[1].e, norm |-> sc[1].norm, dist |-> sc[1].dist,
                                                     kinds |-> sc[1].kinds, W |-> sc[2], u |-> sc[3]]))
Spec == Init /\ [][Next]_vars
=============================================================================
