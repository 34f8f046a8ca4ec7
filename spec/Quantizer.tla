------------------------------ MODULE Quantizer ------------------------------
(***************************************************************************)
(* Quantization with levels lev[1] < lev[2] < ... < lev[n] (n = 2^bits - 1)  *)
(* and a reserved symbol n for samples that are not finite. Symbol s stands  *)
(* for level lev[s+1]. With dithering, a value between two levels is stored  *)
(* as the upper one for the dither values below its relative distance from   *)
(* the lower one.                                                            *)
(*                                                                           *)
(* The operators judge the real encoder (NumTrace), where values are the     *)
(* single-precision numbers in their order. The state machine checks on      *)
(* small scales with all values and all dither values that the rules imply   *)
(* the properties, and that the search that the code uses finds the level.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LevelsOK(lev, bits) ==
  LET n == Len(lev) IN
  /\ n = 2 ^ bits - 1
  /\ \A i \in 1..n-1 : lev[i] < lev[i + 1]              \* strictly increasing
  /\ \A i \in 1..n : lev[i] = -lev[n + 1 - i]           \* symmetric, and zero is a level

(* s is a symbol of one of the levels that enclose x *)
Enclosing(lev, x, s) ==
  LET n == Len(lev) IN
  /\ s \in 0..n-1
  /\ \/ lev[s + 1] = x
     \/ lev[s + 1] < x /\ (s = n - 1 \/ x < lev[s + 2])
     \/ lev[s + 1] > x /\ (s = 0 \/ lev[s] < x)

(* Definition of dithered encoding over a dither range 0..D-1 *)
LowerBound(lev, x) == IF x > lev[Len(lev)] THEN Len(lev) + 1 ELSE CHOOSE i \in 1..Len(lev) : lev[i] >= x /\ (i = 1 \/ lev[i - 1] < x)
Dithered(lev, x, d, D) ==
  LET i == LowerBound(lev, x) IN
  IF i = 1 THEN 0
  ELSE IF i = Len(lev) + 1 THEN Len(lev) - 1
  ELSE IF D * (x - lev[i - 1]) > d * (lev[i] - lev[i - 1]) THEN i - 1 ELSE i - 2

(* The branchless search of the code: steps of decreasing powers of two *)
RECURSIVE Search(_, _, _, _)
Search(lev, x, it, step) ==   \* it: 0-based
  IF step = 0 THEN (IF lev[it + 1] < x THEN it + 1 ELSE it)
  ELSE LET n == Len(lev)  idx == IF step < n - 1 THEN step ELSE n - 1  p == it + idx IN
       Search(lev, x, IF p < n /\ lev[p + 1] < x THEN p ELSE it, step \div 2)
BitFloor(n) == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64} : p <= n /\ 2 * p > n
-----------------------------------------------------------------------------
CONSTANT D                       \* number of dither values; a multiple of every gap below
Scales == { <<-4, 0, 4>>, <<-7, -3, -1, 0, 1, 3, 7>>, <<-12, -6, -2, 0, 2, 6, 12>>, <<-6, -4, -2, 0, 2, 4, 6>>,
            <<-29, -17, -11, -7, -4, -2, -1, 0, 1, 2, 4, 7, 11, 17, 29>>,
            <<-2, -1, 0, 1, 2>>, <<-3, 3>>, <<-5, -3, 0, 1, 2, 8>> }
VARIABLES lev, x, d, sym, ups
vars == <<lev, x, d, sym, ups>>
Range(l) == (l[1] - 3)..(l[Len(l)] + 3)
Init == lev \in Scales /\ x \in Range(lev) /\ d = 0 /\ sym = -1 /\ ups = 0
(* all dither values one after the other *)
Step == /\ d < D
        /\ sym' = Dithered(lev, x, d, D)
        /\ ups' = ups + lev[sym' + 1]
        /\ d' = d + 1 /\ UNCHANGED <<lev, x>>
Next == Step
Spec == Init /\ [][Next]_vars
Neighbour == d > 0 => Enclosing(lev, x, sym)
Exact == d > 0 => \A i \in 1..Len(lev) : lev[i] = x => sym = i - 1
Saturates == d > 0 => /\ (x <= lev[1] => sym = 0) /\ (x >= lev[Len(lev)] => sym = Len(lev) - 1)
Clip(v, l) == IF v < l[1] THEN l[1] ELSE IF v > l[Len(l)] THEN l[Len(l)] ELSE v
(* the mean over all dither values is the value *)
Unbiased == d = D => ups = D * Clip(x, lev)
SearchOK == Search(lev, x, 0, BitFloor(Len(lev))) + 1 = LowerBound(lev, x)
=============================================================================
