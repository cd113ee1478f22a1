--------------------------------- MODULE C02 ---------------------------------
(* Compact text of a document: standard JSON, and back to the document. *)
EXTENDS Trace, JParse
R == INSTANCE JRfc

Judge(rec) ==
    IF rec.panic # "" THEN {"panic"}
    ELSE LET v == rec.v
             want == NumNorm(v)
             st == Run(rec.t)
         IN Broken({
              <<"text-denotes-the-document", st.m = "d" /\ Same(st.val, want)>>,
              <<"nothing-follows", st.n = Len(rec.t)>>,
              <<"keys-ascend", st.asc>>,
              <<"standard-json", StringsOk(v) => R!RfcDense(rec.t)>>,
              <<"parses-back", rec.p[1] = "ok" /\ Same(rec.p[2], want)>>,
              <<"same-bytes-again", rec.t2 = rec.t>>})
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
