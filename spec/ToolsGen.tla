------------------------------- MODULE ToolsGen ------------------------------
(***************************************************************************)
(* Generates measurement sets and sequences of commands on them: block       *)
(* structures (regular, or with one irregularity), columns of several types, *)
(* shapes and storage managers, flags, and command lines.                     *)
(***************************************************************************)
EXTENDS Tools, TLC, Json, Randomization, FiniteSets
CONSTANT Aim                 \* "compress" or "decompress": which tool comes first most of the time
VARIABLES p, done
vars == <<p, done>>
Pick(S) == RandomElement(S)
Rnd(n) == RandomElement(0..n-1)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
(* baselines of a block *)
AllPairs == <<<<0, 1>>, <<0, 2>>, <<1, 2>>, <<0, 0>>, <<1, 1>>, <<2, 3>>, <<0, 3>>, <<2, 2>>, <<3, 1>>, <<2, 0>>>>
Lists == {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2>>, <<4, 1, 2, 5, 3, 8>>, <<1, 4, 2>>, <<9, 6, 7, 2>>, <<10, 9, 1>>, <<1, 1, 2>>, <<6, 7>>, <<4, 5>>, <<5, 3, 1>>}
(* what distinguishes the blocks: time, field and data description *)
Keys == {<<<<0, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>>>, <<<<0, 0, 0>>, <<0, 0, 1>>>>, <<<<0, 0, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<1, 0, 1>>>>,
         <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>>>, <<<<5, 1, 0>>, <<4, 1, 0>>, <<3, 2, 2>>>>, <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<1, 0, 0>>>>, <<<<7, 0, 3>>, <<7, 1, 3>>>>}
Rows(k, b) == [i \in 1..Len(k) * Len(b) |-> LET x == k[((i - 1) \div Len(b)) + 1]  y == AllPairs[b[((i - 1) % Len(b)) + 1]] IN [t |-> x[1], f |-> x[2], d |-> x[3], a |-> y[1], b |-> y[2]]]
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* one change at row i, that may make it irregular *)
Change(q, how, i, x) ==
  IF q = <<>> THEN q ELSE
  CASE how = "none" -> q
    [] how = "drop" -> Del(q, i)
    [] how = "droplast" -> SubSeq(q, 1, Len(q) - 1)
    [] how = "droplast2" -> SubSeq(q, 1, IF Len(q) > 2 THEN Len(q) - 2 ELSE 1)
    [] how = "dup" -> SubSeq(q, 1, i) \o SubSeq(q, i, Len(q))
    [] how = "extra" -> Append(q, q[Len(q)])
    [] how = "more" -> Append(Append(q, [q[Len(q)] EXCEPT !.t = @ + 1]), [q[Len(q)] EXCEPT !.t = @ + 2])
    [] how = "swap" -> [q EXCEPT ![i].a = q[i].b, ![i].b = q[i].a]
    [] how = "ant1" -> [q EXCEPT ![i].a = x]
    [] how = "ant2" -> [q EXCEPT ![i].b = x]
    [] how = "time" -> [q EXCEPT ![i].t = @ + 1]
    [] how = "field" -> [q EXCEPT ![i].f = @ + 1]
    [] how = "ddid" -> [q EXCEPT ![i].d = @ + 1]
    [] how = "exchange" -> IF i = 1 THEN q ELSE [q EXCEPT ![i] = q[i - 1], ![i - 1] = q[i]]
    [] how = "merge" -> [j \in DOMAIN q |-> [q[j] EXCEPT !.t = 0, !.f = 0, !.d = 0]]
    [] how = "empty" -> <<>>
Changes == {"drop", "droplast", "droplast2", "dup", "extra", "more", "swap", "ant1", "ant2", "time", "field", "ddid", "exchange", "merge", "empty"}
Mgr(nodys) == IF nodys THEN Pick({"Std", "StdDirect", "Inc", "TiledShape", "TiledCol"}) ELSE Pick({"Std", "StdDirect", "TiledShape", "Dysco", "Dysco", "Dysco"})
(* a column; flaws make it one that can not be compressed *)
Flaws == <<"type", "dim1", "dim3", "shape", "undef", "size">>
MkColumn(n, np, nc, dm, fl, var, seed) ==
  LET flaw == IF dm = "Dysco" \/ fl > 5 THEN "" ELSE Flaws[fl + 1] IN
  [name |-> n, type |-> IF flaw = "type" THEN (IF seed % 2 = 0 THEN "DComplex" ELSE "Double") ELSE TypeFor(n), dm |-> dm, np |-> np, nc |-> IF flaw = "size" THEN nc + 1 ELSE nc,
   dim |-> CASE flaw = "dim1" -> 1 [] flaw = "dim3" -> 3 [] OTHER -> 2, var |-> IF dm = "Dysco" \/ dm = "StdDirect" \/ (dm = "TiledCol") THEN 0 ELSE IF flaw \in {"shape", "undef"} \/ dm = "TiledShape" THEN 1 ELSE var,
   bad |-> IF flaw \in {"shape", "undef"} /\ dm \in {"Std", "Inc", "TiledShape"} THEN flaw ELSE "no", seed |-> seed]
Column(n, np, nc, nodys) == CHOOSE c \in {MkColumn(n, np, nc, dm, fl, var, seed) : dm \in {Mgr(nodys)}, fl \in {Rnd(54)}, var \in {Rnd(2)}, seed \in {Rnd(60)}} : TRUE
NameSets == IF Aim = "compress"
  THEN {<<"DATA">>, <<"DATA", "WEIGHT_SPECTRUM">>, <<"WEIGHT_SPECTRUM", "DATA">>, <<"DATA", "CORRECTED_DATA", "WEIGHT_SPECTRUM">>, <<"CORRECTED_DATA", "DATA">>, <<"MODEL_DATA", "DATA", "WEIGHT_SPECTRUM", "CORRECTED_DATA">>,
        <<"CORRECTED_DATA">>, <<"WEIGHT_SPECTRUM">>, <<"DATA", "TEMP_DATA">>, <<"DATA", "WEIGHT_SPECTRUM", "TEMP_WEIGHT_SPECTRUM">>, <<"DATA", "MODEL_DATA">>}
  ELSE {<<"DATA">>, <<"WEIGHT_SPECTRUM">>, <<"DATA", "WEIGHT_SPECTRUM">>, <<"WEIGHT_SPECTRUM", "DATA">>, <<"DATA", "CORRECTED_DATA", "WEIGHT_SPECTRUM">>, <<"CORRECTED_DATA", "WEIGHT_SPECTRUM">>, <<"CORRECTED_DATA">>,
        <<"DATA", "MODEL_DATA">>, <<"DATA", "TEMP_DATA">>, <<"DATA", "WEIGHT_SPECTRUM", "TEMP_WEIGHT_SPECTRUM">>}
Ask(S, k, T, odd) ==
  IF k = 0 THEN <<>> ELSE IF k < 3 THEN SetSeq(S) ELSE IF k = 3 THEN odd
  ELSE SetSeq(IF T = {} THEN S ELSE T) \o (IF T # {} /\ k = 4 THEN <<CHOOSE x \in T : TRUE>> ELSE <<>>)
Requests(has) == LET S == RangeOf(has) \cap {"DATA", "WEIGHT_SPECTRUM", "CORRECTED_DATA", "MODEL_DATA"} IN
  CHOOSE q \in {Ask(S, k, T, odd) : k \in {Rnd(20)}, T \in {{x \in S : Rnd(2) = 0}}, odd \in {Pick({<<"ABSENT">>, <<"DATA", "ABSENT">>, <<"UVW">>, <<"DATA", "FLAG">>, <<"TIME">>, <<"DATA", "WEIGHT_SPECTRUM">>, <<"DATA", "DATA">>})}} : TRUE
Command(has) ==
  [tool |-> "dscompress", ask |-> Requests(has), db |-> IF Rnd(20) = 0 THEN Pick({1, 5, 7, 9, 17, 32, -1}) ELSE Pick({0, 2, 3, 4, 6, 8, 10, 12, 16}), wb |-> IF Rnd(20) = 0 THEN Pick({1, 5, 7, 9, 17, 32, -1}) ELSE Pick({0, 2, 3, 4, 6, 8, 10, 12, 16}), norm |-> Pick({"", "AF", "RF", "Row"}),
   dist |-> Pick({"", "", "Uniform", "Gaussian", "TruncatedGaussian", "TruncatedGaussian", "StudentsT"}), trunc |-> Pick({"1.5", "2.5", "3.25", "4", "0.75"}), static |-> Rnd(2), reorder |-> IF Rnd(4) = 0 THEN 1 ELSE 0,
   bad |-> IF Rnd(20) = 0 THEN Pick({"-quiet", "-rate", "-Column", "-db"}) ELSE "", order |-> Rnd(6), path |-> Rnd(5)]
Decompress(has) == [tool |-> "decompress", path |-> Rnd(5)]
CmdList(has, d) ==
  IF Aim = "compress" THEN (IF d = 0 THEN <<Command(has)>> ELSE IF d = 1 THEN <<Command(has), Command(has)>> ELSE <<Command(has), Decompress(has), Command(has)>>)
  ELSE (IF d = 0 THEN <<Decompress(has), Decompress(has)>> ELSE IF d = 1 THEN <<Command(has), Decompress(has), Decompress(has)>> ELSE <<Decompress(has), Command(has), Decompress(has)>>)
Cmds(has) == CHOOSE q \in {CmdList(has, d) : d \in {Rnd(3)}} : TRUE
Init == p = <<>> /\ done = 0
Next ==
  /\ done < 4 /\ done' = done + 1
  /\ CASE done = 0 -> \E k \in {Pick(Keys)}, b \in {Pick(Lists)}, how \in {IF Aim = "compress" /\ Rnd(3) = 0 THEN Pick(Changes) ELSE IF Rnd(20) = 0 THEN "empty" ELSE "none"} :
            p' = <<[rows |-> Change(Rows(k, b), how, 1 + Rnd(Len(k) * Len(b)), Rnd(4)), how |-> how]>>
       [] done = 1 -> \E ns \in {Pick(NameSets)}, np \in {Pick({1, 2, 4})}, nc \in {Pick({1, 2, 3})}, nodys \in {~Regular(p[1].rows) \/ (Aim = "compress" /\ Rnd(3) > 0)} :
            p' = Append(p, [cols |-> [i \in DOMAIN ns |-> Column(ns[i], np, nc, nodys)], names |-> ns, np |-> np, nc |-> nc])
       [] done = 2 -> \E c \in {Cmds(p[2].names)} : p' = Append(p, [cmds |-> c])
       [] done = 3 -> p' = p /\ PrintT("@@" \o ToJson([rows |-> p[1].rows, how |-> p[1].how, cols |-> p[2].cols, np |-> p[2].np, nc |-> p[2].nc, cmds |-> p[3].cmds,
             flag |-> IF Rnd(14) = 0 THEN Pick({"none", "shape", "last", "undef"}) ELSE "ok", fseed |-> Pick({0, 1, 2, 3, 4, 6, 11}), dy |-> Pick({"AF", "RF", "Row"}) \o ":" \o Pick({"Uniform", "TruncatedGaussian", "Gaussian"}) \o ":" \o Pick({"4", "8", "12"}) \o ":" \o Pick({"3", "8", "12"}) \o ":2.5",
             dyname |-> Pick({"DyscoStMan", "DyscoStMan", "DyscoStMan1", "other"})]))
Spec == Init /\ [][Next]_vars
=============================================================================
