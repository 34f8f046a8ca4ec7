---------------------------- MODULE SettingsEnum -----------------------------
(* Enumerates what can be asked for: settings and columns that exist and that do not. *)
EXTENDS Settings, TLC, Json
CONSTANT Part
VARIABLES sc
C(n, t, k, s) == [name |-> n, type |-> t, kind |-> k, shape |-> s]
Data == C("DATA", "Complex", "direct", <<2, 3>>)
Wgt == C("WEIGHT_SPECTRUM", "Float", "direct", <<2, 3>>)
Corr == C("CORRECTED_DATA", "Complex", "direct", <<2, 3>>)
N == <<68, 121>>
Bits == (0..40) \cup {48, 64, 127, 128, 254, 255, 256, 257, 258, 260, 264, 268, 272, 512, 516, 1024, 65535, 65536, 65538, 65544, 16777224}
NewOp(db, wb) == [op |-> "new", m |-> 1, db |-> db, wb |-> wb, name |-> N]
RecOp(m, db, wb, d, n) == [op |-> "rec", m |-> m, db |-> db, wb |-> wb, name |-> N, dist |-> d, norm |-> n, trunc |-> 10, nu |-> 3]
Mk(cols) == [op |-> "mk", t |-> 1, m |-> 1, cols |-> cols]
Use == <<[op |-> "wr", t |-> 1, shift |-> 0], [op |-> "dev", t |-> 1, shift |-> 0], [op |-> "close", t |-> 1], [op |-> "open", t |-> 1, rw |-> 0], [op |-> "dev", t |-> 1, shift |-> 0], [op |-> "rept", t |-> 1], [op |-> "close", t |-> 1], [op |-> "hdr", t |-> 1]>>
(* bit counts, by constructor and by record, for columns that use them *)
BitScen == {<<NewOp(IF w THEN 8 ELSE b, IF w THEN b ELSE 8), Mk(c)>> : b \in Bits, w \in BOOLEAN, c \in {<<Data>>, <<Wgt>>, <<Data, Wgt>>}}
      \cup {<<RecOp(1, IF w THEN 8 ELSE b, IF w THEN b ELSE 8, "Uniform", "RF"), Mk(c)>> : b \in Bits, w \in BOOLEAN, c \in {<<Data>>, <<Wgt, Data>>}}
      (* the column that uses the bit count is added later *)
      \cup {<<NewOp(IF w THEN 8 ELSE b, IF w THEN b ELSE 8), Mk(<<IF w THEN Data ELSE Wgt>>), [op |-> "add", t |-> 1, m |-> 0, cols |-> <<IF w THEN Wgt ELSE Data>>], [op |-> "cols", t |-> 1]>> : b \in Bits, w \in BOOLEAN}
Strings == {"", "gaussian", "GAUSSIAN", "Gauss", "Gaussian ", "Uniform2", "uniform", "Truncated", "TruncatedGauss", "truncatedGaussian", "StudentsTT", "Students", "AF", "None", "0", "1"}
NStrings == {"", "af", "rf", "row", "ROW", "Rows", "A", "AFR", "RFAF", "None", "Uniform", "0", "1"}
NameScen == {<<RecOp(1, 8, 8, d, n), Mk(<<Data, Wgt>>)>> : d \in DistNames \cup Strings, n \in NormNames} \cup {<<RecOp(1, 8, 8, d, n), Mk(<<Data>>)>> : d \in DistNames, n \in NormNames \cup NStrings}
Types == {"Bool", "uChar", "Short", "uShort", "Int", "uInt", "Int64", "Float", "Double", "Complex", "DComplex", "String"}
Kinds == {"scalar", "direct", "fixed", "ndim", "any"}
ColNames == {"DATA", "WEIGHT_SPECTRUM", "WEIGHT", "weight_spectrum", "SIGMA_SPECTRUM", "MODEL_DATA", "X"}
Columns == {C(n, t, k, <<2, 3>>) : n \in ColNames, t \in Types, k \in Kinds} \cup {C(n, IF n = "WEIGHT_SPECTRUM" THEN "Float" ELSE "Complex", "direct", s) : n \in ColNames, s \in {<<1>>, <<6>>, <<2, 3, 2>>, <<2, 3, 1>>, <<1, 1, 1, 1>>, <<1, 1>>, <<4, 1>>, <<1, 4>>, <<0, 3>>, <<2, 0>>}}
Other(c) == IF c.name = "CORRECTED_DATA" THEN Data ELSE Corr
(* at the creation of the table, first or second; added with a new manager; added to the existing manager *)
ColScen == {<<NewOp(8, 8), Mk(<<c>>)>> : c \in Columns} \cup {<<NewOp(8, 8), Mk(<<Other(c), c>>)>> : c \in Columns}
      \cup {<<NewOp(8, 8), [op |-> "plain", t |-> 1], [op |-> "add", t |-> 1, m |-> 1, cols |-> <<c>>], [op |-> "cols", t |-> 1]>> : c \in Columns}
      \cup {<<NewOp(8, 8), Mk(<<Other(c)>>), [op |-> "add", t |-> 1, m |-> 0, cols |-> <<c>>], [op |-> "cols", t |-> 1]>> : c \in Columns}
(* everything that is supported works, whichever way it was asked for *)
AllScen == {<<RecOp(1, db, wb, d, n), Mk(<<Data, Wgt>>)>> : db \in BitCounts, wb \in BitCounts, d \in DistNames, n \in NormNames}
      \cup {<<NewOp(db, 8), [op |-> "dist", m |-> 1, dist |-> d, par |-> IF d = "StudentsT" THEN p ELSE 10 + p], [op |-> "norm", m |-> 1, norm |-> n], Mk(<<Wgt, Data, Corr>>)>> : db \in BitCounts, d \in DistNames, n \in NormNames, p \in 0..7}
Set == CASE Part = "bits" -> BitScen [] Part = "names" -> NameScen [] Part = "cols" -> ColScen [] Part = "all" -> AllScen
Init == sc \in Set
Next == PrintT("@@" \o ToJson(sc)) /\ sc' = <<>>
Spec == Init /\ [][sc # <<>> /\ Next]_sc
=============================================================================
