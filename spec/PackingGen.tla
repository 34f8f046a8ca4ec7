------------------------------ MODULE PackingGen -----------------------------
(* Enumerates the streams with which the packer of the code is tried. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, More
P == INSTANCE Packing WITH b <- 0, todo <- 0, in <- <<>>, acc <- 0, nacc <- 0, out <- <<>>, done <- FALSE
VARIABLES b, n, p
RECURSIVE Log(_)
Log(k) == IF k <= 1 THEN 0 ELSE 1 + Log((k + 1) \div 2)
Pats(bb, nn) == 0..(2 * Log(nn * bb) + 1) \cup 30..31
Init == /\ b \in P!BitCounts
        /\ \/ n \in 0..MaxN /\ p \in Pats(b, n)
           \/ n \in More /\ p \in (Pats(b, n) \ (0..5))
Print1 == PrintT("@@" \o ToJson([b |-> b, n |-> n, p |-> p, s |-> P!Pattern(b, n, p)]))
Next == FALSE /\ UNCHANGED <<b, n, p>>
Spec == Init /\ [][Next]_<<b, n, p>>
Inv == Print1
=============================================================================
