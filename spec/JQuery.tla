------------------------------- MODULE JQuery -------------------------------
(***************************************************************************)
(* Query strings.  Params is the multimap a text denotes; Denoted is the   *)
(* document it denotes, defined without any order between the parameters;  *)
(* Inserted is the document the step-by-step insertion in the order of     *)
(* segments arrives at.  MCQuery checks that they are the same.            *)
(***************************************************************************)
EXTENDS JRender

AMP == 38  EQ == 61  SEMI == 59  PCT == 37
Bad == <<"bad">>

\* --- percent-encoding ------------------------------------------------------
UpperHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Plain(c) == IsDigit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {45, 95, 46, 126}
QEscape(s) == FoldLeft(LAMBDA o, c : o \o (IF Plain(c) THEN <<c>> ELSE IF c = SP THEN <<PLUS>> ELSE <<PCT, UpperHex(c \div 16), UpperHex(c % 16)>>), <<>>, s)

\* state: <<ok, bytes so far, hexadecimal digits awaited, the first of them>>
UnStep(st, c) ==
    IF ~st[1] THEN st
    ELSE IF st[3] = 0 THEN IF c = PCT THEN <<TRUE, st[2], 2, 0>> ELSE <<TRUE, Append(st[2], IF c = PLUS THEN SP ELSE c), 0, 0>>
    ELSE IF ~IsHex(c) THEN <<FALSE, <<>>, 0, 0>>
    ELSE IF st[3] = 2 THEN <<TRUE, st[2], 1, HexVal(c)>>
    ELSE <<TRUE, Append(st[2], 16 * st[4] + HexVal(c)), 0, 0>>
UnEscape(s) == LET st == FoldLeft(UnStep, <<TRUE, <<>>, 0, 0>>, s) IN IF st[1] /\ st[3] = 0 THEN <<TRUE, st[2]>> ELSE <<FALSE, <<>>>>

SplitAt(s, sep) == FoldLeft(LAMBDA o, c : IF c = sep THEN Append(o, <<>>) ELSE [o EXCEPT ![Len(o)] = Append(@, c)], <<<<>>>>, s)
FirstEq(p) == IF \E i \in 1..Len(p) : p[i] = EQ THEN CHOOSE i \in 1..Len(p) : p[i] = EQ /\ \A j \in 1..(i - 1) : p[j] # EQ ELSE Len(p) + 1

\* <<valid, <<<<name, value>>, ...>>>>
ParamOf(p) == LET k == UnEscape(SubSeq(p, 1, FirstEq(p) - 1))
                  v == UnEscape(SubSeq(p, FirstEq(p) + 1, Len(p)))
              IN <<k[1] /\ v[1] /\ \A i \in 1..Len(p) : p[i] # SEMI, k[2], v[2]>>
Params(t) == LET ps == SelectSeq(SplitAt(t, AMP), LAMBDA p : p # <<>>)
                 qs == [i \in 1..Len(ps) |-> ParamOf(ps[i])]
             IN <<\A i \in 1..Len(qs) : qs[i][1], [i \in 1..Len(qs) |-> <<qs[i][2], qs[i][3]>>]>>

\* --- names -----------------------------------------------------------------
Segs(name) == SplitAt(name, DOT)
Zero == <<48>>
IsNum(s) == LET neg == s # <<>> /\ s[1] = MINUS
                m == IF neg THEN Tail(s) ELSE s
            IN AllDigits(m) /\ (m[1] # 48 \/ (Len(m) = 1 /\ ~neg)) /\ FitsInt64(neg, m)
IsNeg(s) == IsNum(s) /\ s[1] = MINUS
NumLess(s, t) == IF IsNeg(s) THEN ~IsNeg(t) \/ DecLess(Tail(t), Tail(s)) ELSE ~IsNeg(t) /\ DecLess(s, t)

\* --- what the parameters denote -------------------------------------------
Names(ps) == {ps[i][1] : i \in 1..Len(ps)}
Values(ps, n) == LET q == SelectSeq(ps, LAMBDA p : p[1] = n) IN [i \in 1..Len(q) |-> Str(q[i][2])]
Repeated(ps) == {Segs(n) : n \in {m \in Names(ps) : Len(Values(ps, m)) > 1}}
\* a repeated parameter is its values, numbered
Items(ps) == FoldLeft(LAMBDA o, n : LET vs == Values(ps, n) IN
                        o \o (IF Len(vs) = 1 THEN <<<<Segs(n), vs[1]>>>> ELSE [i \in 1..Len(vs) |-> <<Append(Segs(n), DecOf(i - 1)), vs[i]>>]),
                      <<>>, SetToSeq(Names(ps)))
RECURSIVE Build(_, _, _)
Build(items, path, rep) ==
    IF \E i \in 1..Len(items) : items[i][1] = <<>> THEN IF Len(items) = 1 THEN items[1][2] ELSE Bad
    ELSE LET heads == {items[i][1][1] : i \in 1..Len(items)}
             under(h) == LET q == SelectSeq(items, LAMBDA x : x[1][1] = h) IN [i \in 1..Len(q) |-> <<Tail(q[i][1]), q[i][2]>>]
             kid == [h \in heads |-> Build(under(h), Append(path, h), rep)]
             list == path # <<>> /\ (path \in rep \/ (Zero \in heads /\ ~\E h \in heads : IsNeg(h)))
         IN IF \E h \in heads : kid[h] = Bad THEN Bad
            ELSE IF ~list THEN Obj(FoldLeft(LAMBDA o, h : Put(o, h, kid[h]), <<>>, SetToSeq(heads)))
            ELSE IF heads = {DecOf(i) : i \in 0..(Cardinality(heads) - 1)} THEN Arr([i \in 1..Cardinality(heads) |-> kid[DecOf(i - 1)]])
            ELSE Bad
DenotedBy(ps) == Build(Items(ps), <<>>, Repeated(ps))
Denoted(t) == LET p == Params(t) IN IF p[1] THEN DenotedBy(p[2]) ELSE Bad

\* --- insertion, one name after the other -----------------------------------
SegLess(s, t) == IF IsNum(s) THEN ~IsNum(t) \/ NumLess(s, t) ELSE ~IsNum(t) /\ LexLess(s, t)
RECURSIVE SegsLess(_, _)
SegsLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                  ELSE IF a[1] = b[1] THEN SegsLess(Tail(a), Tail(b)) ELSE SegLess(a[1], b[1])
Nil == <<"nil">>
RECURSIVE Insert(_, _, _)
Insert(body, segs, vals) ==
    IF segs = <<>> THEN IF body # Nil THEN Bad ELSE IF Len(vals) = 1 THEN vals[1] ELSE Arr(vals)
    ELSE LET b == IF body # Nil THEN body ELSE IF segs[1] = Zero THEN EmptyArr ELSE EmptyObj
             deeper(x) == Insert(x, Tail(segs), vals)
         IN CASE IsO(b) -> LET k == deeper(IF Has(b[2], segs[1]) THEN At(b[2], segs[1]) ELSE Nil)
                           IN IF k = Bad THEN Bad ELSE Obj(Put(b[2], segs[1], k))
              [] IsA(b) -> IF ~IsNum(segs[1]) \/ IsNeg(segs[1]) \/ ~DecLeq(segs[1], DecOf(Len(b[2]))) THEN Bad
                           ELSE LET n == NatOf(segs[1])
                                    k == deeper(IF n < Len(b[2]) THEN b[2][n + 1] ELSE Nil)
                                IN IF k = Bad THEN Bad ELSE IF n < Len(b[2]) THEN Arr([b[2] EXCEPT ![n + 1] = k]) ELSE Arr(Append(b[2], k))
              [] OTHER -> Bad
\* names in the order given by seq
InsertAll(ps, seq) == FoldLeft(LAMBDA b, n : IF b = Bad THEN Bad ELSE Insert(b, Segs(n), Values(ps, n)), EmptyObj, seq)
Inserted(ps) == InsertAll(ps, SetToSortSeq(Names(ps), LAMBDA m, n : SegsLess(Segs(m), Segs(n))))

\* --- the other way ----------------------------------------------------------
IsLeaf(v) == v[1] \notin {"a", "o"}
LeafText(v) == CASE IsS(v) -> v[2] [] IsN(v) -> <<>> [] OTHER -> Render(v)
RECURSIVE ParamsOf(_, _)
ParamsOf(v, path) ==
    LET at(s) == IF path = <<>> THEN s ELSE path \o <<DOT>> \o s IN
    CASE v[1] = "a" -> FoldLeft(LAMBDA o, i : o \o ParamsOf(v[2][i], at(DecOf(i - 1))), <<>>, [i \in 1..Len(v[2]) |-> i])
      [] v[1] = "o" -> FoldLeft(LAMBDA o, m : o \o ParamsOf(m[2], at(m[1])), <<>>, v[2])
      [] OTHER -> <<<<path, LeafText(v)>>>>
TextOf(ps) == Join([i \in 1..Len(ps) |-> QEscape(ps[i][1]) \o <<EQ>> \o QEscape(ps[i][2])], <<AMP>>)

\* the documents a query string holds without loss, but for the kind of leaves
RECURSIVE Holds(_, _)
Holds(v, top) ==
    CASE v[1] = "a" -> v[2] # <<>> /\ \A i \in 1..Len(v[2]) : Holds(v[2][i], FALSE)
      [] v[1] = "o" -> (top \/ v[2] # <<>>) /\ \A i \in 1..Len(v[2]) :
                         LET k == v[2][i][1] IN k # <<>> /\ (\A j \in 1..Len(k) : k[j] # DOT) /\ (top \/ ~IsNum(k)) /\ Holds(v[2][i][2], FALSE)
      [] v[1] = "f" -> ~IsUnknown(v)
      [] OTHER -> v[1] # "r"
RECURSIVE AsText(_)
AsText(v) == CASE v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> AsText(v[2][i])])
               [] v[1] = "o" -> Obj([i \in 1..Len(v[2]) |-> <<v[2][i][1], AsText(v[2][i][2])>>])
               [] OTHER -> Str(LeafText(v))
=============================================================================
