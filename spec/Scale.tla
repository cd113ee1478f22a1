-------------------------------- MODULE Scale ---------------------------------
(***************************************************************************)
(* Documents far larger than those the other modules look at: long strings *)
(* and keys, many elements, many members, deep nesting.  Such a document   *)
(* is given by a few words - what is repeated, and how often - and its     *)
(* compact text follows from these words alone.  A record holds the texts  *)
(* the library came to on all the ways a property speaks of, and for each  *)
(* the description it must be the text of; and questions answered yes or   *)
(* no, together with the descriptions they are about.                      *)
(***************************************************************************)
EXTENDS Trace, JRender

\* the parts one after another, in halves (from the first on it would take a time that grows with the square)
RECURSIVE Between(_, _, _)
Between(ss, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo = hi THEN ss[lo]
    ELSE LET m == (lo + hi) \div 2 IN Between(ss, lo, m) \o Between(ss, m + 1, hi)
Flat(ss) == Between(ss, 1, Len(ss))
\* n parts, those given over and over
Cycle(unit, n) == Flat(TLCEval([i \in 1..n |-> unit[((i - 1) % Len(unit)) + 1]]))
QuoteAll(unit) == TLCEval([j \in 1..Len(unit) |-> QuoteByte(unit[j])])
StrText(unit, n) == <<DQ>> \o Cycle(QuoteAll(unit), n) \o <<DQ>>
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE Append(Digits(n \div 10, w - 1), 48 + (n % 10))
\* every text but the last with the separator behind it
Separated(n, T(_), sep) == Flat(TLCEval([i \in 1..n |-> IF i < n THEN T(i) \o sep ELSE T(i)]))

RECURSIVE Text(_)
Text(d) ==
    CASE d[1] = "val" -> Render(d[2])
      [] d[1] = "str" -> StrText(d[2], d[3])
      \* n elements, those given over and over
      [] d[1] = "arr" ->
           LET ts == TLCEval([j \in 1..Len(d[3]) |-> Text(d[3][j])])
           IN <<LBK>> \o Separated(d[2], LAMBDA i : ts[((i - 1) % Len(ts)) + 1], <<COMMA>>) \o <<RBK>>
      \* n members, the first of that number: a prefix and a number of that many digits
      [] d[1] = "obj" ->
           LET ts == TLCEval([j \in 1..Len(d[6]) |-> Text(d[6][j])])
               key(i) == <<DQ>> \o Flat(QuoteAll(d[4])) \o Digits(i, d[5]) \o <<DQ, COLON>>
               member(i) == key(d[2] + i - 1) \o ts[((d[2] + i - 1) % Len(ts)) + 1]
           IN <<LBR>> \o Separated(d[3], member, <<COMMA>>) \o <<RBR>>
      \* one member with a long key
      [] d[1] = "key" -> <<LBR>> \o StrText(d[2], d[3]) \o <<COLON>> \o Text(d[4]) \o <<RBR>>
      \* n levels around one value, each <<"a">> or <<"o", key>>
      [] d[1] = "nest" ->
           LET m == Len(d[3])
               open == TLCEval([j \in 1..m |-> IF d[3][j][1] = "a" THEN <<LBK>> ELSE <<LBR>> \o Quote(d[3][j][2]) \o <<COLON>>])
               close == TLCEval([j \in 1..m |-> IF d[3][j][1] = "a" THEN <<RBK>> ELSE <<RBR>>])
           IN Flat(TLCEval([i \in 1..d[2] |-> open[((i - 1) % m) + 1]])) \o Text(d[4])
              \o Flat(TLCEval([i \in 1..d[2] |-> close[((d[2] - i) % m) + 1]]))

      \* a loop of n structs linked by their member next, met after that many more
      [] d[1] = "ring" ->
           LET link == B("{\"next\":")
               links(n) == Flat(TLCEval([i \in 1..n |-> link]))
           IN links(d[2]) \o <<LBR>> \o NidText \o d[4] \o <<COMMA>> \o Tail(link) \o links(d[3] - 1)
              \o Render(<<"r", d[4]>>) \o [i \in 1..(d[2] + d[3]) |-> RBR]

Judge(rec) ==
    IF rec.panic # "" THEN {"panic"}
    ELSE LET ts == TLCEval([j \in 1..Len(rec.ds) |-> Text(rec.ds[j])])
         IN {o[1] : o \in {p \in ToSet(rec.obs) : p[3] # ts[p[2]]}}
            \cup {q[1] : q \in {p \in ToSet(rec.eqs) : p[4] # (ts[p[2]] = ts[p[3]])}}
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
