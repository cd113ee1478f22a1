-------------------------------- MODULE Graph --------------------------------
(* Records of real pointer graphs marshalled, rendered, parsed and unmarshalled (C18). *)
EXTENDS Trace, JGraph

Clauses(rec) ==
    LET st == Run(rec.text)
        sp == Run(rec.pretty)
        fs == IF st.m = "d" THEN Facts(rec.g, rec.root, st.val, rec.all) ELSE {<<"bad", "no text">>}
        good == Says(fs)
        \* the text with objects and references to them exchanged
        sm == IF rec.moved = <<>> THEN st ELSE Run(rec.moved)
        fm == IF sm.m = "d" THEN Facts(rec.g, rec.root, sm.val, rec.all) ELSE {<<"bad", "no text">>}
        same == Says(fm) /\ RefsFound(fm) /\ OneEach(sm.val)
        ofMoved(b) == b.how \in {"moved", "moved-indented"}
    IN {<<"every-path-in-the-text", good>>,
        <<"one-object-for-an-id", st.m = "d" => OneEach(st.val)>>,
        <<"references-name-their-object", good => RefsFound(fs)>>,
        <<"indented-text-says-the-same", st.m = "d" => sp.m = "d" /\ sp.val = st.val>>,
        <<"text-again", rec.again = rec.text>>,
        <<"read-through-references", \A k \in 1..Len(rec.asks) : ReadOk(rec.g, rec.root, rec.asks[k])>>,
        <<"plain-through-references", \A k \in 1..Len(rec.asks) : PlainOk(rec.g, rec.root, rec.asks[k])>>}
       \cup UNION {LET b == rec.backs[i]
                       ps == PathPairs(rec.g, rec.root, b.g, b.root)
                   IN IF ofMoved(b) /\ ~same THEN {} ELSE
                      {<<"unmarshals-" \o b.how, b.st = "ok">>,
                       <<"values-along-every-path-" \o b.how, b.st = "ok" => SameValues(rec.g, b.g, ps)>>,
                       <<"identity-on-every-loop-" \o b.how, b.st = "ok" /\ SameValues(rec.g, b.g, ps) => SameLoops(rec.g, b.g, ps)>>} : i \in 1..Len(rec.backs)}
Judge(rec) == IF rec.panic # "" THEN {"panic"} ELSE Broken(Clauses(rec))
TraceOk == Report(Recs[l].i, Judge(Recs[l]))
=============================================================================
