-------------------------------- MODULE Texts --------------------------------
(* Records of the real parsers on generated texts (C01, C03, C04, C05). *)
EXTENDS Trace, JParse
R == INSTANCE JRfc

Agree(f, out) == IF f.m = "d" THEN out[1] = "ok" /\ Same(Blur(out[2]), Blur(f.val)) ELSE out[1] = "err"
Exact(f, out) == f.m = "d" /\ out[1] = "ok" /\ Same(out[2], f.val)

Clauses(rec) ==
    CASE rec.k = "rfc" ->
           LET f == Run(rec.t)
           IN {<<"generator", R!RfcOk(rec.t) /\ f.m = "d" /\ Same(NumNorm(f.val), NumNorm(rec.v))>>,
               <<"standard-text-decoded", IF rec.odd THEN Agree(f, rec.out) ELSE Exact(f, rec.out)>>,
               <<"byte-slice-entry-agrees", rec.out2 = rec.out>>}
      [] rec.k = "text" ->
           LET f == Run(rec.t)
           IN {<<"rejected", f.m # "d" => rec.out[1] = "err">>,
               <<"one-reading", f.m = "d" => Agree(f, rec.out)>>}
      [] rec.k = "offset" ->
           LET f == RunAt(rec.t, rec.off)
           IN {<<"document", Agree(f, rec.out)>>,
               <<"position-after", f.m = "d" => rec.pos = rec.off + f.n>>,
               <<"position-inside", rec.pos >= rec.off /\ rec.pos <= Len(rec.t)>>}
      [] rec.k = "stream" ->
           LET s == Stream(rec.t)
           IN {<<"documents-in-order", IF s.docs = <<>> /\ s.bad > 0 THEN rec.out[1] = "err"
                                       ELSE rec.out[1] = "ok" /\ Same(Blur(rec.out[2]), Blur(Arr(s.docs)))>>}
      [] rec.k = "total" ->
           {<<"value-or-error", \A i \in 1..Len(rec.outs) : rec.outs[i] \in {"ok", "err"}>>,
            <<"position-inside", rec.pos >= 0 /\ rec.pos <= rec.len>>}
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
