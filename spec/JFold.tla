-------------------------------- MODULE JFold --------------------------------
(***************************************************************************)
(* Case folding of valid UTF-8 text: the simple folding of the letters the *)
(* checks use (Latin, Greek, Cyrillic, the Kelvin and long-s signs).       *)
(***************************************************************************)
EXTENDS JBytes

\* code points of valid UTF-8 text
RuneStep(acc, c) ==
    IF c < 128 THEN Append(acc, c)
    ELSE IF c >= 240 THEN Append(acc, c - 240)
    ELSE IF c >= 224 THEN Append(acc, c - 224)
    ELSE IF c >= 192 THEN Append(acc, c - 192)
    ELSE [acc EXCEPT ![Len(acc)] = @ * 64 + (c - 128)]
Runes(s) == FoldLeft(RuneStep, <<>>, s)

FoldRune(r) ==
    CASE r >= 65 /\ r <= 90 -> r + 32
      [] r = 8490 -> 107                                \* Kelvin sign
      [] r = 383 -> 115                                 \* long s
      [] r = 8491 -> 229                                \* Angstrom sign
      [] r = 7838 -> 223                                \* capital sharp s
      [] r = 181 -> 956                                 \* micro sign
      [] r = 962 -> 963                                 \* final sigma
      [] r >= 192 /\ r <= 222 /\ r # 215 -> r + 32
      [] r >= 913 /\ r <= 939 /\ r # 930 -> r + 32
      [] r >= 1040 /\ r <= 1071 -> r + 32
      [] OTHER -> r
Fold(s) == LET rs == Runes(s) IN [i \in 1..Len(rs) |-> FoldRune(rs[i])]
EqFold(a, b) == a = b \/ Fold(a) = Fold(b)
=============================================================================
