---------------------------- MODULE Normalization ----------------------------
(***************************************************************************)
(* The scale factors of a time block. All samples are signed powers of two,  *)
(* so that a block is described by exponents, products of factors are sums   *)
(* and the normalization is arithmetic in (max, +).                          *)
(*                                                                           *)
(* A block s has rows 1..R, and per row visibilities 1..V in channel-major,  *)
(* polarization-minor order with two components. X[r][i][c] is an exponent,  *)
(* Zero for the value 0, or NaN / PInf / MInf.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Zero == 1003
NaN  == 1000
PInf == 1001
MInf == 1002
NonFinite(e) == e \in {NaN, PInf, MInf}
None == -100000                                 \* maximum of nothing
Max2(a, b) == IF a >= b THEN a ELSE b
MaxOver(f, S) == FoldSet(LAMBDA k, m : Max2(f[k], m), None, S)
(* the larger component of a visibility; visibilities that are not finite and *)
(* zeros do not take part in the normalization                               *)
Comp(e) == IF e = Zero THEN None ELSE e
Mag(x) == IF NonFinite(x[1]) \/ NonFinite(x[2]) THEN None ELSE Max2(Comp(x[1]), Comp(x[2]))
Minus(a, b) == IF a = None \/ b = None THEN None ELSE a - b
Plus(a, b) == IF a = None \/ b = None THEN None ELSE a + b

(* Mg[r][i] = Mag: scale of every visibility *)
RowScale(Mg, R, V, P) ==
  LET m == [r \in 1..R |-> MaxOver(Mg[r], 1..V)] IN [r \in 1..R |-> [i \in 1..V |-> m[r]]]
PolOf(i, P) == ((i - 1) % P) + 1
RFScale(Mg, R, V, P) ==
  LET rm == [r \in 1..R |-> [p \in 1..P |-> MaxOver(Mg[r], {i \in 1..V : PolOf(i, P) = p})]]
      cm == [i \in 1..V |-> MaxOver([r \in 1..R |-> Minus(Mg[r][i], rm[r][PolOf(i, P)])], 1..R)]
  IN [r \in 1..R |-> [i \in 1..V |-> Plus(rm[r][PolOf(i, P)], cm[i])]]
(* AF finds its factors iteratively. What is demanded is that they follow the *)
(* gains: the samples of a block are at most gain(a1) gain(a2) band(i).       *)
AFScale(ea, eb, a1, a2, R, V, slack) == [r \in 1..R |-> [i \in 1..V |-> ea[a1[r] + 1][PolOf(i, Len(ea[1]))] + ea[a2[r] + 1][PolOf(i, Len(ea[1]))] + eb[i] + slack]]
=============================================================================
