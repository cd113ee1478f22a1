-------------------------------- MODULE Struct --------------------------------
(* Records of real Go values marshalled and unmarshalled (C15, C16, C17, C19, C20). *)
EXTENDS Trace, JStruct

RECURSIVE Strip(_)
\* a document without its empty members
Strip(d) == CASE d[1] = "o" -> LET ms == [i \in 1..Len(d[2]) |-> <<d[2][i][1], Strip(d[2][i][2])>>]
                               IN Obj(SelectSeq(ms, LAMBDA m : m[2] \notin {Null, EmptyArr, EmptyObj, Str(<<>>)}))
              [] d[1] = "a" -> Arr([i \in 1..Len(d[2]) |-> Strip(d[2][i])])
              [] OTHER -> d
\* the same value up to what omission erases: it marshals alike
Alike(T, v, w, all) == LET a == Marshal(T, v, all)
                           b == Marshal(T, w, all)
                       IN a = b \/ (~all /\ Strip(a) = Strip(b))

RECURSIVE PartAt(_, _)
\* the part of a document a key path names: <<"ok", part>> or <<"err">>
PartAt(d, ks) == IF ks = <<>> THEN <<"ok", d>>
                ELSE IF d[1] # "o" \/ ~Has(d[2], Head(ks)) THEN <<"err">>
                ELSE PartAt(At(d[2], Head(ks)), Tail(ks))

Clauses(rec) ==
    CASE rec.k = "marshal" ->
           LET st == Run(rec.text) IN
           {<<"marshalled-by-the-rules", st.m = "d" /\ DocMatch(Marshal(rec.T, rec.v, rec.all), st.val)>>}
      [] rec.k = "try" ->
           LET d == Marshal(rec.T, rec.v, rec.all)
               st == Run(rec.text)
           IN {<<"refused-exactly-when-a-method-refuses", (rec.st = "err") <=> HasRefusal(d)>>,
               <<"marshalled-by-the-rules", (rec.st = "ok" /\ ~HasRefusal(d)) => (st.m = "d" /\ DocMatch(d, st.val))>>}
      [] rec.k = "back" ->
           {<<"unmarshals", \A i \in 1..Len(rec.backs) : rec.backs[i][1] = "ok">>,
            <<"same-value-back", \A i \in 1..Len(rec.backs) : rec.backs[i][1] = "ok" => Alike(rec.T, rec.v, rec.backs[i][2], rec.all)>>}
      [] rec.k = "unmarshal" ->
           LET r == Unm(rec.T, rec.old, rec.d) IN
           {<<"value-or-error", r[1] = "any" \/ rec.st = r[1]>>,
            <<"stored", Match(r[2], rec.new)>>}
      [] rec.k = "cleared" ->
           LET r == Unm(rec.T, rec.old, rec.d) IN
           {<<"value-or-error", r[1] = "any" \/ rec.st = r[1]>>,
            <<"stored", Match(r[2], rec.new)>>,
            <<"what-null-replaced-is-as-it-was", rec.was = rec.is>>}
      [] rec.k = "refs" -> \* references that may name nothing, or what does not fit
           {<<"value-or-error", rec.st \in {<<"ok", "ok">>, <<"err", "err">>}>>}
      [] rec.k = "under" ->
           LET u == PartAt(rec.d, rec.keys)
               r == IF u = <<"err">> THEN <<"err", rec.old>> ELSE Unm(rec.T, rec.old, u[2])
           IN {<<"value-or-error", r[1] = "any" \/ rec.st = r[1]>>,
               <<"stored", Match(r[2], rec.new)>>}
      [] rec.k = "update" ->
           LET r == Unm(rec.T, rec.old, rec.d) IN
           {<<"marshalled-by-the-rules", DocMatch(Marshal(rec.S, rec.v, FALSE), rec.d)>>,
            <<"value-or-error", r[1] = "any" \/ rec.st = r[1]>>,
            <<"stored", Match(r[2], rec.new)>>}
      [] rec.k = "deser" ->
           LET r == Deserialize(rec.T, rec.text) IN
           {<<"value-or-error", r[1] = "any" \/ rec.st = r[1]>>,
            <<"rebuilt", (r[1] = "ok" /\ rec.st = "ok") => Match(r[2], rec.new)>>}
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
===============================================================================
