------------------------------- MODULE Packing -------------------------------
(***************************************************************************)
(* Bit packing. The packed form of symbols s1..sn of b bits is the stream    *)
(* of their bits, least significant bit first, cut in bytes of which the     *)
(* least significant bit comes first; ceil(n b / 8) bytes.                   *)
(*                                                                           *)
(* The definitions are used to judge the real packer (NumTrace). The state   *)
(* machine is the streaming algorithm that such a packer follows; checking   *)
(* it shows that the definition is reversible and that the algorithm         *)
(* computes it.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

BitCounts == {2, 3, 4, 6, 8, 10, 12, 16}
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Size(n, b) == (n * b + 7) \div 8
BitOf(x, k) == (x \div P2[k + 1]) % 2                  \* bit k of a number
StreamBit(s, b, k) == IF k < Len(s) * b THEN BitOf(s[k \div b + 1], k % b) ELSE 0
ByteAt(s, b, j) == LET B(i) == StreamBit(s, b, 8 * j + i) IN
   B(0) + 2 * B(1) + 4 * B(2) + 8 * B(3) + 16 * B(4) + 32 * B(5) + 64 * B(6) + 128 * B(7)
Pack(s, b) == [j \in 1..Size(Len(s), b) |-> ByteAt(s, b, j - 1)]
ByteBit(bytes, k) == BitOf(bytes[k \div 8 + 1], k % 8)
RECURSIVE SymBits(_, _, _, _)
SymBits(bytes, b, i, k) == IF k = b THEN 0 ELSE ByteBit(bytes, i * b + k) * P2[k + 1] + SymBits(bytes, b, i, k + 1)
Unpack(bytes, b, n) == [i \in 1..n |-> SymBits(bytes, b, i - 1, 0)]

(* The bits of the bytes that carry data are those of the symbols; the unused *)
(* bits of the last byte are free.                                           *)
SameBits(bytes, s, b) ==
  /\ Len(bytes) = Size(Len(s), b)
  /\ \A j \in 1..Len(bytes) :
       IF 8 * j <= Len(s) * b THEN bytes[j] = ByteAt(s, b, j - 1)
       ELSE bytes[j] % P2[Len(s) * b - 8 * (j - 1) + 1] = ByteAt(s, b, j - 1)

(* The symbols of test pattern p. Patterns 2k and 2k+1 hold bit k of the      *)
(* position of every bit in the stream, and its complement: together they    *)
(* tell every bit of a stream of less than 2^15 bits apart, so that every     *)
(* misplaced, copied, lost or added bit shows in at least one of them.        *)
PatternBit(b, n, p, k) ==
  IF p < 30 THEN (BitOf(k, p \div 2) + p) % 2
  ELSE LET x == (k * 7919 + p * 104729 + k * (k % 61)) % 65521 IN (x \div 16) % 2
RECURSIVE PatSym(_, _, _, _, _)
PatSym(b, n, p, i, k) == IF k = b THEN 0 ELSE PatternBit(b, n, p, i * b + k) * P2[k + 1] + PatSym(b, n, p, i, k + 1)
Pattern(b, n, p) == [i \in 1..n |-> PatSym(b, n, p, i - 1, 0)]
-----------------------------------------------------------------------------
(* The streaming packer *)
VARIABLES b, todo, in, acc, nacc, out, done
vars == <<b, todo, in, acc, nacc, out, done>>
Lens(x) == CASE x = 2 -> 0..5 [] x = 3 -> 0..4 [] x = 4 -> 0..3 [] x = 6 -> 0..2 [] OTHER -> 0..3
Syms(x) == IF x <= 6 THEN 0..(P2[x + 1] - 1)
           ELSE {0, 1, P2[x + 1] - 1, P2[x], P2[x] - 1, 165 % P2[x + 1], (P2[x + 1] - 1) \div 3}
Init == /\ b \in BitCounts /\ todo \in Lens(b) /\ in = <<>> /\ acc = 0 /\ nacc = 0 /\ out = <<>> /\ done = FALSE
Emit == nacc >= 8
Push == /\ todo > 0 /\ ~Emit
        /\ \E x \in Syms(b) : in' = Append(in, x) /\ acc' = acc + x * P2[nacc + 1]
        /\ nacc' = nacc + b /\ todo' = todo - 1 /\ UNCHANGED <<b, out, done>>
Byte == /\ Emit /\ out' = Append(out, acc % 256) /\ acc' = acc \div 256 /\ nacc' = nacc - 8 /\ UNCHANGED <<b, todo, in, done>>
Flush == /\ todo = 0 /\ ~Emit /\ ~done /\ done' = TRUE
         /\ out' = (IF nacc > 0 THEN Append(out, acc) ELSE out) /\ UNCHANGED <<b, todo, in, acc, nacc>>
Next == Push \/ Byte \/ Flush
Spec == Init /\ [][Next]_vars
Correct == done => /\ out = Pack(in, b) /\ SameBits(out, in, b) /\ Unpack(out, b, Len(in)) = in
Progress == /\ Len(out) <= Size(Len(in), b) /\ acc < 65536 * 128
=============================================================================
