------------------------------- MODULE JBytes -------------------------------
(***************************************************************************)
(* Byte strings (sequences over 0..255), their order, decimal numbers as   *)
(* byte strings, case folding and UTF-8.  Numbers are kept as text because *)
(* TLC's integers have 32 bits and the library's have 64.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)]
\* the bytes of an ASCII string literal
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

TAB == 9  LF == 10  CR == 13  SP == 32  DQ == 34  SQ == 39
COMMA == 44  MINUS == 45  PLUS == 43  DOT == 46  COLON == 58
LT == 60  GT == 62  LBK == 91  BSL == 92  RBK == 93  LBR == 123  RBR == 125

IsWs(c)    == c \in {SP, TAB, LF, CR}
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c)   == \/ c >= 48 /\ c <= 57
              \/ c >= 97 /\ c <= 102
              \/ c >= 65 /\ c <= 70
HexVal(c)  == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Lower(c)   == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c)   == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
LowerStr(s) == [i \in 1..Len(s) |-> Lower(s[i])]

AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])

\* lexicographic order on byte strings
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] = b[i] THEN LexLessFrom(a, b, i + 1)
    ELSE a[i] < b[i]
LexLess(a, b) == LexLessFrom(a, b, 1)

RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ Head(s) = 48 THEN DropZeros(Tail(s)) ELSE s
RECURSIVE DropTailZeros(_)
DropTailZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN DropTailZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zeros(n) == [i \in 1..n |-> 48]

\* order of unsigned decimals without leading zeros
DecLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))
DecLeq(a, b)  == a = b \/ DecLess(a, b)

MaxInt64Mag == B("9223372036854775807")
MinInt64Mag == B("9223372036854775808")
FitsInt64(neg, mag) == IF neg THEN DecLeq(mag, MinInt64Mag) ELSE DecLeq(mag, MaxInt64Mag)

\* small decimals to and from TLC integers
RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecOf(n \div 10), 48 + (n % 10))

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* --- UTF-8 ------------------------------------------------------------- *)
Utf8Enc(r) ==
    IF r < 128 THEN <<r>>
    ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
    ELSE IF r >= 55296 /\ r <= 57343 THEN <<239, 191, 189>>
    ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
    ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

\* automaton state: <<pending continuation bytes, lowest and highest allowed next>>, or <<>> when broken
Utf8Step(st, c) ==
    IF st = <<>> THEN <<>>
    ELSE IF st[1] > 0
         THEN IF c < st[2] \/ c > st[3] THEN <<>>
              ELSE <<st[1] - 1, 128, 191>>
    ELSE IF c < 128 THEN st
    ELSE IF c >= 194 /\ c <= 223 THEN <<1, 128, 191>>
    ELSE IF c = 224 THEN <<2, 160, 191>>
    ELSE IF c = 237 THEN <<2, 128, 159>>
    ELSE IF c >= 225 /\ c <= 239 THEN <<2, 128, 191>>
    ELSE IF c = 240 THEN <<3, 144, 191>>
    ELSE IF c >= 241 /\ c <= 243 THEN <<3, 128, 191>>
    ELSE IF c = 244 THEN <<3, 128, 143>>
    ELSE <<>>
Utf8Ok(s) == LET st == FoldLeft(Utf8Step, <<0, 128, 191>>, s) IN st # <<>> /\ st[1] = 0
=============================================================================
