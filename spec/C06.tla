--------------------------------- MODULE C06 ---------------------------------
(* The indented and the YAML rendering denote the same document as the compact one. *)
EXTENDS Trace, JParse
R == INSTANCE JRfc

Doc(rec) ==
    LET want == NumNorm(rec.v)
        st == Run(rec.pretty)
    IN Broken({
        <<"pretty-denotes-the-document", st.m = "d" /\ Same(st.val, want) /\ st.n = Len(rec.pretty)>>,
        <<"pretty-parses-back", rec.pp[1] = "ok" /\ Same(rec.pp[2], want)>>,
        <<"pretty-differs-in-white-space-only", R!Squeeze(rec.pretty) = rec.t>>,
        <<"yaml-parses-back", rec.y[1] = "skip" \/ (rec.y[1] = "ok" /\ Same(rec.y[2], want))>>,
        <<"json-read-as-yaml", rec.jy[1] = "skip" \/ (rec.jy[1] = "ok" /\ Same(rec.jy[2], want))>>,
        <<"pretty-read-as-yaml", rec.py[1] = "skip" \/ (rec.py[1] = "ok" /\ Same(rec.py[2], want))>>})
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Doc(rec)
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
