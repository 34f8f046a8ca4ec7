----------------------------- MODULE WeightBlock -----------------------------
(***************************************************************************)
(* Weights. The weight of a channel is the lowest of its polarizations and   *)
(* is stored as a symbol 0..q with q = 2^bits - 1 relative to the highest     *)
(* such weight M of the time block. Weights are integers here; the code is   *)
(* given them times a power of two, which makes no difference.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
MinSeq(s) == LET S == {s[i] : i \in DOMAIN s} IN CHOOSE x \in S : \A y \in S : x <= y
MaxSeq(s) == LET S == {s[i] : i \in DOMAIN s} IN CHOOSE x \in S : \A y \in S : x >= y
(* blk[r][ch][p] *)
Low(blk) == [r \in DOMAIN blk |-> [c \in DOMAIN blk[r] |-> MinSeq(blk[r][c])]]
Top(low) == MaxSeq([r \in DOMAIN low |-> MaxSeq(low[r])])
Abs(v) == IF v < 0 THEN -v ELSE v
(* symbol s stands for s M / q; is that within half a step of m? *)
(* (the code rounds to single precision before it rounds to a symbol: 1/512 of a step at 16 bits) *)
Slack(M, q) == M \div (IF q > 4095 THEN 256 ELSE 4096)
Within(s, m, M, q) == s \in 0..q /\ Abs(2 * s * M - 2 * m * q) <= M + Slack(M, q)
(* everything that is demanded of the symbols of a block *)
BlockOK(sym, low, q) ==
  LET M == Top(low)  all == {<<low[r][c], sym[r][c]>> : r \in DOMAIN low, c \in DOMAIN low[1]} IN
  IF M = 0 THEN \A x \in all : x[2] = 0
  ELSE /\ \A x \in all : Within(x[2], x[1], M, q) /\ (x[1] = 0 => x[2] = 0) /\ (x[1] = M => x[2] = q)
       /\ \A x, y \in all : x[1] <= y[1] => x[2] <= y[2]
-----------------------------------------------------------------------------
(* An encoder that meets this, and the effect of encoding again after a row   *)
(* was replaced.                                                             *)
CONSTANTS Bits, MaxW, Rows
VARIABLES q, blk, file, prev
vars == <<q, blk, file, prev>>
Round(m, M, qq) == (2 * m * qq + M) \div (2 * M)
Enc(low, qq) == LET M == Top(low) IN IF M = 0 THEN [s |-> [r \in DOMAIN low |-> [c \in DOMAIN low[r] |-> 0]], M |-> 1]
                                     ELSE [s |-> [r \in DOMAIN low |-> [c \in DOMAIN low[r] |-> Round(low[r][c], M, qq)]], M |-> M]
Init == /\ q \in {2^b - 1 : b \in Bits} /\ blk \in [1..Rows -> [1..1 -> [1..2 -> 0..MaxW]]]
        /\ file = Enc(Low(blk), q) /\ prev = file
(* a row of which the lowest weight does not touch the maximum is replaced: the others keep their symbols *)
Others(r) == {x \in 1..Rows : x # r}
Rewrite == /\ file = prev
           /\ \E r \in 1..Rows, w \in 0..MaxW :
                LET low == Low(blk)  rest == {low[x][1] : x \in Others(r)} IN
                /\ low[r][1] < Top(low) /\ w < Top(low) /\ w # low[r][1]
                \* decoded values in units of M / q: symbols; the replaced row in the same unit
                /\ file' = [file EXCEPT !.s[r][1] = Round(w, file.M, q)]
                /\ blk' = [blk EXCEPT ![r][1] = <<w, w>>]
           /\ UNCHANGED <<q, prev>>
Next == Rewrite
Spec == Init /\ [][Next]_vars
Meets == BlockOK(file.s, Low(blk), q)
=============================================================================
