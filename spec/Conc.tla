--------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Goroutines that use the library at the same time (C24), as MCConc has   *)
(* them.  A record has what every question was answered alone, what each   *)
(* goroutine was answered, what can be observed of the shared things       *)
(* before and after, and how many races the detector saw.                  *)
(***************************************************************************)
EXTENDS Trace
Alone(rec, q) == LET r == SelectSeq(rec.alone, LAMBDA p : p[1] = q) IN r[1][2]
Clauses(rec) ==
    {<<"no-data-race", rec.races = 0>>,
     <<"unchanged", rec.before = rec.after>>,
     <<"as-alone", \A g \in 1..Len(rec.said) : \A i \in 1..Len(rec.said[g]) : rec.said[g][i][2] = Alone(rec, rec.said[g][i][1])>>}
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
===============================================================================
