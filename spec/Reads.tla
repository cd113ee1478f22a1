--------------------------------- MODULE Reads --------------------------------
(***************************************************************************)
(* Calls that read (C14).  The state is what a user can observe: his       *)
(* documents, Go values and input bytes, and the library's shared null,    *)
(* true and false; and the answers given so far.  A reading step leaves    *)
(* everything observed as it was, and answers a question that was asked    *)
(* before as it did before.                                                *)
(***************************************************************************)
EXTENDS Trace

\* a step is <<question, answer, <<<<index, what it looks like now>>, ...>>>>
Read(acc, s) ==
    LET old == SelectSeq(acc.said, LAMBDA p : p[1] = s[1])
        changed == \E d \in ToSet(s[3]) : acc.seen[d[1]] # d[2]
        differs == old # <<>> /\ old[1][2] # s[2]
    IN [seen |-> FoldLeft(LAMBDA o, d : [o EXCEPT ![d[1]] = d[2]], acc.seen, s[3]),
        said |-> IF old = <<>> THEN Append(acc.said, <<s[1], s[2]>>) ELSE acc.said,
        bad |-> acc.bad \cup (IF changed THEN {"changed-by-" \o s[1]} ELSE {}) \cup (IF differs THEN {"another-answer-of-" \o s[1]} ELSE {})]
Judge(rec) == IF rec.panic # "" THEN {"panic"}
              ELSE FoldLeft(Read, [seen |-> rec.start, said |-> <<>>, bad |-> {}], rec.steps).bad
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
