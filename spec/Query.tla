-------------------------------- MODULE Query --------------------------------
(* Query strings written and read by the library (C22, C23). *)
EXTENDS Trace, JQuery

Clauses(rec) ==
    CASE rec.k = "encode" ->
           LET in == Holds(rec.d, TRUE) IN
           {<<"text-denotes-the-document", in => Denoted(rec.t) = AsText(rec.d)>>,
            <<"decodes-to-the-document", in => rec.out = <<"ok", AsText(rec.d)>>>>}
      [] rec.k = "decode" ->
           LET d == Denoted(rec.t) IN
           {<<"denoted-or-error", \A i \in 1..Len(rec.outs) : rec.outs[i] = IF d = Bad THEN <<"err">> ELSE <<"ok", d>>>>,
            <<"order-does-not-matter", \A i \in 1..Len(rec.outs) : rec.outs[i] = rec.outs[1]>>}
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
