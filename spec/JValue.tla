------------------------------- MODULE JValue -------------------------------
(***************************************************************************)
(* Documents.  A document is one of                                        *)
(*   <<"n">>                null                                           *)
(*   <<"b", TRUE>>          boolean                                        *)
(*   <<"i", text>>          64-bit integer, canonical decimal text         *)
(*   <<"f", neg, digs, e>>  finite float (-1)^neg * 0.digs * 10^e, digs    *)
(*                          without leading or trailing zeros (<<>> = 0)   *)
(*   <<"s", bytes>>         string                                         *)
(*   <<"a", elements>>      array                                          *)
(*   <<"o", members, nid>>  object: <<key, document>> in ascending key     *)
(*                          order; nid is the node id's text, <<>> if none *)
(*   <<"r", text>>          reference <n> to the object with node id n     *)
(* Floats whose decimal value the specification does not predict (NaN,     *)
(* infinities, hexadecimal or over-long spellings) carry digs = <<63>>.    *)
(***************************************************************************)
EXTENDS JBytes

Null == <<"n">>
Bool(b) == <<"b", b>>
IntT(t) == <<"i", t>>
IntN(n) == IF n < 0 THEN <<"i", <<MINUS>> \o DecOf(-n)>> ELSE <<"i", DecOf(n)>>
Str(s) == <<"s", s>>
Arr(xs) == <<"a", xs>>
Obj(ps) == <<"o", ps, <<>>>>
Ref(t) == <<"r", t>>
EmptyObj == Obj(<<>>)
EmptyArr == Arr(<<>>)

IsN(v) == v[1] = "n"  IsB(v) == v[1] = "b"  IsI(v) == v[1] = "i"  IsF(v) == v[1] = "f"
IsS(v) == v[1] = "s"  IsA(v) == v[1] = "a"  IsO(v) == v[1] = "o"  IsR(v) == v[1] = "r"

\* a number this specification does not predict; what is no number; what is beyond all numbers
UnknownFloat == <<"f", FALSE, <<63>>, 0>>
NanFloat == <<"f", FALSE, <<63>>, 1>>
InfFloat(neg) == <<"f", neg, <<63>>, 2>>
IsUnknown(v) == v[3] = <<63>>
\* numbers spelled with more digits than tell doubles (singles) apart are predicted as far as those digits
\* go: a fifth component says that the number found may be the nearest there is
Rounded(v, p) == IF IsUnknown(v) \/ Len(v) > 4 THEN v ELSE Append(v, p)
MkFloat(neg, digs, e) ==
    LET d1 == DropZeros(digs)
        e1 == e - (Len(digs) - Len(d1))
        d2 == DropTailZeros(d1)
    IN IF d2 = <<>> THEN <<"f", neg, <<>>, 0>> ELSE <<"f", neg, d2, e1>>

(* --- members of an object ---------------------------------------------- *)
KeysOf(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
\* number of members whose key is below k
RECURSIVE RankFrom(_, _, _)
RankFrom(ps, k, i) == IF i > Len(ps) \/ ~LexLess(ps[i][1], k) THEN i - 1 ELSE RankFrom(ps, k, i + 1)
Rank(ps, k) == RankFrom(ps, k, 1)
Has(ps, k) == LET r == Rank(ps, k) IN r < Len(ps) /\ ps[r + 1][1] = k
At(ps, k) == ps[Rank(ps, k) + 1][2]
Put(ps, k, v) ==
    LET r == Rank(ps, k) IN
    IF r < Len(ps) /\ ps[r + 1][1] = k
    THEN [ps EXCEPT ![r + 1] = <<k, v>>]
    ELSE SubSeq(ps, 1, r) \o <<<<k, v>>>> \o SubSeq(ps, r + 1, Len(ps))
Del(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)
Ascending(ps) == \A i \in 1..(Len(ps) - 1) : LexLess(ps[i][1], ps[i + 1][1])

(* --- comparison -------------------------------------------------------- *)
\* the first n digits of what is digs behind z zeros
Lead(digs, z, n) == LET s == Zeros(z) \o digs IN IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
Abs(n) == IF n < 0 THEN -n ELSE n
\* two numbers whose digits differ by the rounding to a double (a single) and to its shortest digits at most
Near(u, v, p) ==
    LET e == IF u[4] > v[4] THEN u[4] ELSE v[4]
        tiny(x) == x[3] = <<>> \/ x[4] < (IF p = "s" THEN -35 ELSE -300)
    IN
    /\ u[2] = v[2]
    /\ \/ tiny(u) /\ tiny(v)
       \/ /\ u[3] # <<>> /\ v[3] # <<>>
          /\ Abs(u[4] - v[4]) <= 1
          /\ IF p = "s" THEN Abs(NatOf(Lead(u[3], e - u[4], 8)) - NatOf(Lead(v[3], e - v[4], 8))) <= 14
             ELSE LET a == Lead(u[3], e - u[4], 16)
                      b == Lead(v[3], e - v[4], 16)
                      hi == NatOf(SubSeq(a, 1, 8)) - NatOf(SubSeq(b, 1, 8))
                  IN Abs(hi) <= 1 /\ Abs(hi * 100000000 + NatOf(SubSeq(a, 9, 16)) - NatOf(SubSeq(b, 9, 16))) <= 6
SameFloat(u, v) ==
    IF u = UnknownFloat \/ v = UnknownFloat THEN TRUE
    ELSE IF IsUnknown(u) \/ IsUnknown(v) THEN u = v
    ELSE IF Len(u) = 4 /\ Len(v) = 4 THEN u = v
    ELSE Near(u, v, IF (Len(u) > 4 /\ u[5] = "s") \/ (Len(v) > 4 /\ v[5] = "s") THEN "s" ELSE "d")
\* equality of content, where an unpredicted float matches any float
RECURSIVE Same(_, _)
Same(u, v) ==
    IF u[1] # v[1] THEN FALSE
    ELSE CASE u[1] = "a" -> Len(u[2]) = Len(v[2]) /\ \A i \in 1..Len(u[2]) : Same(u[2][i], v[2][i])
           [] u[1] = "o" -> /\ Len(u[2]) = Len(v[2]) /\ u[3] = v[3]
                            /\ \A i \in 1..Len(u[2]) : u[2][i][1] = v[2][i][1] /\ Same(u[2][i][2], v[2][i][2])
           [] u[1] = "f" -> SameFloat(u, v)
           [] OTHER -> u = v

\* the number an integral float turns into when it is written and read again
FloatIntText(v) == IF v[3] = <<>> THEN <<48>>
                   ELSE (IF v[2] THEN <<MINUS>> ELSE <<>>) \o v[3] \o Zeros(v[4] - Len(v[3]))
FloatIsInt(v) == /\ IsF(v) /\ ~IsUnknown(v)
                 /\ \/ v[3] = <<>>
                    \/ v[4] >= Len(v[3]) /\ v[4] <= 19 /\ FitsInt64(v[2], v[3] \o Zeros(v[4] - Len(v[3])))
RECURSIVE NumNorm(_)
NumNorm(v) ==
    CASE v[1] = "f" -> IF FloatIsInt(v) THEN IntT(FloatIntText(v)) ELSE v
      [] v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> NumNorm(v[2][i])])
      [] v[1] = "o" -> <<"o", [i \in 1..Len(v[2]) |-> <<v[2][i][1], NumNorm(v[2][i][2])>>], v[3]>>
      [] OTHER -> v

RECURSIVE HasRef(_)
HasRef(v) == CASE v[1] = "r" -> TRUE
               [] v[1] = "a" -> \E i \in 1..Len(v[2]) : HasRef(v[2][i])
               [] v[1] = "o" -> v[3] # <<>> \/ \E i \in 1..Len(v[2]) : HasRef(v[2][i][2])
               [] OTHER -> FALSE

RECURSIVE StringsOk(_)
\* every string and key is valid UTF-8
StringsOk(v) == CASE v[1] = "s" -> Utf8Ok(v[2])
                  [] v[1] = "a" -> \A i \in 1..Len(v[2]) : StringsOk(v[2][i])
                  [] v[1] = "o" -> \A i \in 1..Len(v[2]) : Utf8Ok(v[2][i][1]) /\ StringsOk(v[2][i][2])
                  [] OTHER -> TRUE

RECURSIVE WellFormed(_)
WellFormed(v) == CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : WellFormed(v[2][i])
                   [] v[1] = "o" -> Ascending(v[2]) /\ \A i \in 1..Len(v[2]) : WellFormed(v[2][i][2])
                   [] OTHER -> TRUE
=============================================================================
