----------------------------- MODULE WeightTrace -----------------------------
(***************************************************************************)
(* Judges weights read back. S: per block, row and channel the symbol that    *)
(* the value read is nearest to (relative to the highest weight of the block,*)
(* or to 1 unit if there is none), equal for all polarizations; F: the same  *)
(* in the file. S2: after row u.r of block u.b was replaced by u.v.           *)
(* off: whether some value was further from its symbol than the rounding of  *)
(* floats explains, or differed between polarizations.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
I == INSTANCE WeightBlock WITH Bits <- {}, MaxW <- 0, Rows <- 0, q <- 0, blk <- 0, file <- 0, prev <- 0
E == Trace[l]
Qn(b) == IF b = 16 THEN 65535 ELSE 2^b - 1
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
OthersSym(k) == {E.S[k][r][c] : r \in (1..E.R) \ {E.u.r}, c \in 1..E.nc}
(* The block is encoded again: rows that were not replaced have the values that were read before, S M1 / q. The highest
   weight is then either that of the new row (Sm = -1) or the highest value read, Sm M1 / q. *)
(* t is the symbol of s M1 / q when v is the highest: t v = s M1, to half a step (and the rounding of floats, a 32nd) *)
AgainOK(t, s, v, M1) == LET d == I!Abs(t * v - s * M1) IN d <= v /\ 2 * d <= v + (v \div 32) + 1
(* t is the symbol of s M1 / q when Sm M1 / q is the highest: t Sm = s q, written without overflow *)
ScaledOK(t, s, Sm, q) == LET b == (q % Sm)  X == s * b  n == s * (q \div Sm) + (X \div Sm)  d == t - n IN
                         /\ d \in -1..2 /\ 2 * I!Abs(d * Sm - (X % Sm)) <= Sm + (Sm \div 32) + 1
(* t is the symbol of v when Sm M1 / q is the highest: t Sm M1 = v q q *)
FreshOK(t, v, Sm, M1, q) ==
  IF q <= 255 THEN LET U == Sm * M1 IN 2 * I!Abs(t * U - v * q * q) <= U + (U \div 32) + 1
  ELSE LET k == (v * q) \div M1  m == ((v * q) % M1)  b == (q % Sm)  X == k * b  f == (X % Sm) + ((m * q) \div M1)
           n == k * (q \div Sm) + (X \div Sm) + (f \div Sm)  d == t - n IN
       /\ d \in -1..2 /\ 2 * I!Abs(d * Sm - (f % Sm)) <= Sm + (Sm \div 32) + 3
TW == /\ l <= Len(Trace) /\ E.e = "weights" /\ E.res = "ok" /\ ~E.off /\ l' = l + 1
      /\ \A k \in 1..E.nb : I!BlockOK(E.S[k], I!Low(E.W[k]), Qn(E.b)) /\ E.F[k] = E.S[k]
      /\ E.u.do = 1 =>
           \A k \in 1..E.nb :
             IF k # E.u.b THEN E.S2[k] = E.S[k]
             ELSE LET q == Qn(E.b)  new == E.Sm = -1  M1 == E.M1 IN
                  /\ IF new THEN E.u.v * q >= Max(OthersSym(k)) * M1 ELSE E.Sm = Max(OthersSym(k)) /\ E.u.v * q < E.Sm * M1
                  /\ \A r \in 1..E.R, c \in 1..E.nc :
                       LET s == E.S[k][r][c]  t == E.S2[k][r][c] IN
                       /\ t \in 0..q
                       /\ IF r = E.u.r
                          THEN IF E.u.v = 0 THEN t = 0 ELSE IF new THEN t = q ELSE FreshOK(t, E.u.v, E.Sm, M1, q)
                          ELSE IF s = 0 THEN t = 0
                          ELSE IF new THEN AgainOK(t, s, E.u.v, M1) ELSE (s = E.Sm => t = q) /\ ScaledOK(t, s, E.Sm, q)
Init == l = 1
Next == TW
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
