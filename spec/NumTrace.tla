------------------------------- MODULE NumTrace ------------------------------
(***************************************************************************)
(* Judges what was recorded from the packer and the quantizer of the code    *)
(* with the definitions of Packing and Quantizer. One event per line.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
P == INSTANCE Packing WITH b <- 0, todo <- 0, in <- <<>>, acc <- 0, nacc <- 0, out <- <<>>, done <- FALSE
Q == INSTANCE Quantizer WITH D <- 1, lev <- <<>>, x <- 0, d <- 0, sym <- 0, ups <- 0
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ E.res = "ok" /\ l' = l + 1
Abs(v) == IF v < 0 THEN -v ELSE v

TPack == /\ Is("pack")
         /\ LET s == IF E.p >= 0 THEN P!Pattern(E.b, E.n, E.p) ELSE E.s IN
            /\ E.size = P!Size(E.n, E.b)
            /\ P!SameBits(E.bytes, s, E.b)
            /\ E.un = s /\ E.un2 = s
         /\ E.ok            \* nothing outside the buffers was touched, and the input is intact
         /\ E.same          \* what is written does not depend on what was there

TQuant == /\ Is("quant")
          /\ Q!LevelsOK(E.lev, E.b)
          /\ E.min = E.lev[1] /\ E.max = E.lev[Len(E.lev)]
          /\ \A k \in DOMAIN E.x : /\ Q!Enclosing(E.lev, E.x[k], E.se[k]) /\ Q!Enclosing(E.lev, E.x[k], E.s0[k])
                                   /\ Q!Enclosing(E.lev, E.x[k], E.s1[k]) /\ Q!Enclosing(E.lev, E.x[k], E.sm[k])
          \* a value that equals a level is stored as that level
          /\ \A k \in DOMAIN E.x : \A t \in {E.se[k], E.s0[k], E.s1[k], E.sm[k]} :
                /\ (t > 0 => E.lev[t] # E.x[k])
                /\ (t + 1 < Len(E.lev) => E.lev[t + 2] # E.x[k])
          \* without dithering: order is kept, and values close to a level go there
          /\ \A k \in 1..Len(E.x)-1 : E.x[k] <= E.x[k + 1] => E.se[k] <= E.se[k + 1]
          /\ \A k \in DOMAIN E.nf : E.nf[k] = Len(E.lev)
          /\ E.nfnan

(* frac: relative distance from the lower level; part: the part of the dither *)
(* values for which the upper level is chosen; both in units of 2^-20.        *)
TDith == /\ Is("dith")
         /\ Len(E.sym) > 0
         /\ \A k \in DOMAIN E.sym : E.odd[k] = 0 /\ Abs(E.part[k] - E.frac[k]) <= E.tol[k]

(* counts of an event with chance num/den in n independent trials *)
RECURSIVE ISqrt(_, _, _)
ISqrt(v, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= v \div m THEN ISqrt(v, m, hi) ELSE ISqrt(v, lo, m - 1)
Sqrt(v) == ISqrt(v, 0, 46340)
(* |count/n - num/den| <= 7 sigma, sigma^2 = num (den - num) / (den^2 n) *)
Likely(count, n, num, den) == Abs(den * count - n * num) <= 7 * (Sqrt(n * num * (den - num)) + 1)
TStat == /\ Is("stat")
         /\ \A k \in DOMAIN E.count : Likely(E.count[k], E.n[k], E.num[k], E.den[k])
         /\ \A k \in DOMAIN E.other : E.other[k] = 0

Init == l = 1
Next == TPack \/ TQuant \/ TDith \/ TStat
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
