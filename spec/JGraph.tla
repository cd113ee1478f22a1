-------------------------------- MODULE JGraph --------------------------------
(***************************************************************************)
(* Graphs of Go structs linked by pointers, and what a document says of    *)
(* them.                                                                   *)
(*                                                                         *)
(* A graph is a sequence of nodes, a node a record                         *)
(*   t    its type's name                                                  *)
(*   v    its own value, an integer's text                                 *)
(*   one  <<name, node>> of its single pointers that are not nil           *)
(*   l    the nodes of its list; 0 is nil                                  *)
(*   m    <<key, node>> of its map                                         *)
(* in ascending order of names and keys.  Single pointers may go through   *)
(* pointers to pointers and to lists of one; that is part of the name's    *)
(* type and not seen here.                                                 *)
(***************************************************************************)
EXTENDS JParse

\* every way on from a node: <<label, node>>
Edges(n) == {<<<<"p", e[1]>>, e[2]>> : e \in ToSet(n.one)} \cup {<<<<"l", i>>, n.l[i]>> : i \in {j \in 1..Len(n.l) : n.l[j] # 0}}
            \cup {<<<<"m", n.m[i][1]>>, n.m[i][2]>> : i \in {j \in 1..Len(n.m) : n.m[j][2] # 0}}
Succ(g, i) == {e[2] : e \in Edges(g[i])}
RECURSIVE Closure(_, _, _)
Closure(g, S, seen) == IF S \subseteq seen THEN seen
                       ELSE Closure(g, UNION {Succ(g, i) : i \in S \ seen}, seen \cup S)
\* the nodes a non-empty path leads to
After(g, i) == Closure(g, Succ(g, i), {})
OnCycle(g, i) == i \in After(g, i)

(* --- two graphs that look the same from their roots ------------------------ *)
Labels(n) == {e[1] : e \in Edges(n)}
To(n, lab) == (CHOOSE e \in Edges(n) : e[1] = lab)[2]
SameNode(a, b) == a.t = b.t /\ a.v = b.v /\ Labels(a) = Labels(b)
RECURSIVE Pairs(_, _, _, _)
\* the nodes that the same path leads to in one and the other
Pairs(g, h, new, seen) ==
    IF new \subseteq seen THEN seen
    ELSE Pairs(g, h, UNION {{<<To(g[p[1]], lab), To(h[p[2]], lab)>> : lab \in Labels(g[p[1]]) \cap Labels(h[p[2]])} : p \in new \ seen}, seen \cup new)
PathPairs(g, r, h, s) == Pairs(g, h, {<<r, s>>}, {})
SameValues(g, h, ps) == \A p \in ps : SameNode(g[p[1]], h[p[2]])
\* a node on a loop is one node in the other graph, too
SameLoops(g, h, ps) == \A p, q \in ps : p[1] = q[1] /\ OnCycle(g, p[1]) => p[2] = q[2]

\* the nodes passed on a way from node i, its last one at the end
RECURSIVE Way(_, _, _)
Way(g, i, way) == IF way = <<>> THEN <<i>> ELSE <<i>> \o Way(g, To(g[i], way[1]), Tail(way))
\* asking a document for a key path reads the graph, through references, too
ReadOk(g, root, a) ==
    LET w == Way(g, root, a.way)
        v == g[w[Len(w)]].v
    IN IF a.last = "v" THEN a.got = <<"ok", v>> /\ a.has ELSE a.got = <<"err">> /\ ~a.has
\* so do plain values, which may stop at a loop only
PlainOk(g, root, a) ==
    LET w == Way(g, root, a.way)
        v == g[w[Len(w)]].v
    IN \/ a.plain = (IF a.last = "v" THEN <<"ok", v>> ELSE <<"err">>)
       \/ a.plain = <<"cut">> /\ \E k \in 2..Len(w) : OnCycle(g, w[k])

(* --- what a document says ---------------------------------------------------- *)
\* a fact is <<"obj", id, node>>, <<"ref", id, node>> or <<"bad", why>>
RECURSIVE Facts(_, _, _, _)
Facts(g, i, d, all) ==
    LET n == g[i] IN
    IF d[1] = "r" THEN {<<"ref", d[2], i>>}
    ELSE IF d[1] # "o" THEN {<<"bad", "not an object">>}
    ELSE LET val == IF Has(d[2], B("v")) THEN At(d[2], B("v")) ELSE Null
             part(name) == IF Has(d[2], B(name)) THEN At(d[2], B(name)) ELSE Null
             lst == part("l")
             mp == part("m")
             known == {B("v"), B("l"), B("m")} \cup {B(e[1]) : e \in ToSet(n.one)}
         IN {<<"obj", d[3], i>>}
            \cup (IF val = IntT(n.v) THEN {} ELSE {<<"bad", "value">>})
            \cup (IF \A p \in ToSet(d[2]) : p[1] \in known \/ p[2] = Null THEN {} ELSE {<<"bad", "member">>})
            \cup UNION {Facts(g, e[2], part(e[1]), all) : e \in ToSet(n.one)}
            \cup (IF n.l = <<>> THEN (IF lst \in {Null, EmptyArr} THEN {} ELSE {<<"bad", "list">>})
                  ELSE IF lst[1] # "a" \/ Len(lst[2]) # Len(n.l) THEN {<<"bad", "list">>}
                  ELSE UNION {IF n.l[k] = 0 THEN (IF lst[2][k] = Null THEN {} ELSE {<<"bad", "element">>}) ELSE Facts(g, n.l[k], lst[2][k], all) : k \in 1..Len(n.l)})
            \cup (LET shown == SelectSeq(n.m, LAMBDA p : all \/ p[2] # 0) IN
                  IF shown = <<>> THEN (IF mp = Null \/ (mp[1] = "o" /\ mp[2] = <<>>) THEN {} ELSE {<<"bad", "map">>})
                  ELSE IF mp[1] # "o" \/ KeysOf(mp[2]) # [k \in 1..Len(shown) |-> shown[k][1]] THEN {<<"bad", "map">>}
                  ELSE UNION {IF shown[k][2] = 0 THEN (IF At(mp[2], shown[k][1]) = Null THEN {} ELSE {<<"bad", "entry">>})
                              ELSE Facts(g, shown[k][2], At(mp[2], shown[k][1]), all) : k \in 1..Len(shown)})
Says(fs) == {f \in fs : f[1] = "bad"} = {}
\* how often each id stands in a document
RECURSIVE Ids(_)
Ids(d) == CASE d[1] = "o" -> (IF d[3] = <<>> THEN <<>> ELSE <<d[3]>>) \o FoldLeft(LAMBDA acc, p : acc \o Ids(p[2]), <<>>, d[2])
            [] d[1] = "a" -> FoldLeft(LAMBDA acc, x : acc \o Ids(x), <<>>, d[2])
            [] OTHER -> <<>>
OneEach(d) == LET s == Ids(d) IN Cardinality(ToSet(s)) = Len(s)
RefsFound(fs) == \A f \in fs : f[1] = "ref" => \E o \in fs : o[1] = "obj" /\ o[2] = f[2] /\ o[3] = f[3]
=============================================================================
