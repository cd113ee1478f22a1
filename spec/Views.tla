--------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Reading a marshalled document in place (C10): a document is walked one  *)
(* step at a time, and questions are put to what stands there.  Where a    *)
(* reference <id> stands, the document in memory answers as the object of  *)
(* that id would.  What the document holds is what its compact text says.  *)
(***************************************************************************)
EXTENDS Trace, JGraph

\* every object with an id, in a document
RECURSIVE WithIds(_)
WithIds(d) == CASE d[1] = "o" -> (IF d[3] = <<>> THEN {} ELSE {d}) \cup UNION {WithIds(p[2]) : p \in ToSet(d[2])}
                [] d[1] = "a" -> UNION {WithIds(x) : x \in ToSet(d[2])}
                [] OTHER -> {}
Seen(objs, d) == IF d[1] = "r" /\ \E o \in objs : o[3] = d[2] THEN CHOOSE o \in objs : o[3] = d[2] ELSE d
StepTo(objs, d, s) == LET o == Seen(objs, d) IN IF s[1] = "k" THEN At(o[2], s[2]) ELSE o[2][s[2] + 1]
Nothing == <<"nothing">>
\* the value a text says, standing in a list
ValueOf(text) == LET st == Run(<<91>> \o text \o <<93>>) IN IF st.m = "d" /\ Len(st.val[2]) = 1 THEN st.val[2][1] ELSE Nothing
Place(n, i) == IF i < 0 THEN n + i + 1 ELSE i + 1

\* <<answers, value>> of a question to what stands there
Expect(o, q) ==
    LET obj == o[1] = "o"
        arr == o[1] = "a"
        none == <<FALSE, Nothing>>
    IN CASE q.q \in {"Get", "Contains"} -> IF obj /\ Has(o[2], q.k) THEN <<TRUE, At(o[2], q.k)>> ELSE none
         [] q.q = "GetMap" -> IF obj THEN <<TRUE, o>> ELSE none
         [] q.q = "GetArray" -> IF arr THEN <<TRUE, o>> ELSE none
         [] q.q = "GetAt" -> IF arr /\ Place(Len(o[2]), q.n) \in 1..Len(o[2]) THEN <<TRUE, o[2][Place(Len(o[2]), q.n)]>> ELSE none
         [] q.q = "Int" -> IF obj /\ Has(o[2], q.k) /\ At(o[2], q.k)[1] = "i" THEN <<TRUE, At(o[2], q.k)>> ELSE none
Agree(o, q) ==
    LET e == Expect(o, q) IN
    /\ q.ok = e[1]
    /\ ~e[1] \/ CASE q.q = "Contains" -> TRUE
                  [] q.q = "GetMap" -> KeysOf(o[2]) = [j \in 1..Len(q.out) |-> q.out[j][1]] /\ \A j \in 1..Len(q.out) : ValueOf(q.out[j][2]) = o[2][j][2]
                  [] q.q = "GetArray" -> Len(q.out) = Len(o[2]) /\ \A j \in 1..Len(q.out) : ValueOf(q.out[j]) = o[2][j]
                  [] OTHER -> ValueOf(q.out) = e[2]
RECURSIVE Walk(_, _, _, _)
Walk(objs, d, places, j) ==
    IF j > Len(places) THEN {}
    ELSE LET p == places[j]
             at == IF p.step = <<>> THEN d ELSE StepTo(objs, d, p.step)
             o == Seen(objs, at)
         IN {<<q.q \o (IF at = o THEN "" ELSE "-of-a-reference"), Agree(o, q)>> : q \in ToSet(p.asks)} \cup Walk(objs, at, places, j + 1)
Clauses(rec) ==
    LET st == Run(rec.text) IN
    IF st.m # "d" THEN {<<"a-document", FALSE>>} ELSE Walk(TLCEval(WithIds(st.val)), st.val, rec.places, 1)
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
