-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Walks the records of real executions, one state per record.  K walks    *)
(* start side by side so that TLC's workers share the file.  A module that *)
(* extends this one defines Judge(rec), the set of names of the clauses    *)
(* rec breaks; a broken record is reported and the walk goes on.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANT RecFile, K
Recs == ndJsonDeserialize(RecFile)
N == Len(Recs)

VARIABLE l
TraceInit == l \in 1..(IF N < K THEN N ELSE K)
TraceNext == l + K <= N /\ l' = l + K
TraceSpec == TraceInit /\ [][TraceNext]_l

Report(i, bad) == bad = {} \/ PrintT("MISMATCH " \o ToJson(<<i, SetToSeq(bad)>>))
\* names of the clauses that are false, from a set of <<name, holds>>
Broken(cs) == {c[1] : c \in {x \in cs : ~x[2]}}
=============================================================================
