--------------------------------- MODULE Hist ---------------------------------
(***************************************************************************)
(* Histories of real calls on real documents (C07-C14).  After each call   *)
(* the record holds the call's result and what every variable of the user  *)
(* then looked like; the specification follows along and must agree.       *)
(***************************************************************************)
EXTENDS Trace, JHeap

Start(n) == [heap |-> <<>>, reg |-> [q \in 1..n |-> Null]]
Observe(obs, dump) == FoldLeft(LAMBDA o, d : [o EXCEPT ![d[1]] = d[2]], obs, dump)
\* a history stops at the first disagreement; the driver only makes calls that are valid for the
\* containers it holds, so one that is not valid here means that sharing differs
StepRec(acc, j, rec) ==
    IF acc.stop THEN acc
    ELSE LET op == rec.ops[j] IN
         IF ~Valid(acc.st, op) THEN [acc EXCEPT !.stop = TRUE, !.bad = @ \cup {"shares-otherwise-than-" \o op[1]}]
         ELSE LET d == Do(acc.st, op)
                  obs == Observe(acc.obs, rec.dump[j])
                  badRes == ~ResultOk(op[1], d[2], rec.res[j])
                  badReg == \E q \in 1..Len(obs) : Tree(d[1].heap, d[1].reg[q]) # obs[q]
                  bad == (IF badRes THEN {"result-of-" \o op[1]} ELSE {}) \cup (IF badReg THEN {"documents-after-" \o op[1]} ELSE {})
              IN [st |-> d[1], obs |-> obs, bad |-> acc.bad \cup bad, stop |-> bad # {}]

JudgeHist(rec) ==
    FoldLeft(LAMBDA acc, j : StepRec(acc, j, rec),
             [st |-> Start(rec.nreg), obs |-> [q \in 1..rec.nreg |-> Null], bad |-> {}, stop |-> FALSE],
             [j \in 1..Len(rec.ops) |-> j]).bad
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE JudgeHist(rec)
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
