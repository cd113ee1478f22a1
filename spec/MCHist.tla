-------------------------------- MODULE MCHist --------------------------------
(***************************************************************************)
(* All histories of calls from a small set of documents, up to Depth       *)
(* calls.  Histories that reach the same documents, shared the same way,   *)
(* are explored once (VIEW), so that every call is tried in every state.   *)
(* The laws the properties state are checked on every step of the          *)
(* specification; every step is handed to the driver with a history that   *)
(* leads to it, and is made on the real documents.                         *)
(***************************************************************************)
EXTENDS JHeap, Json
CONSTANTS Profile, Depth, Emit

VARIABLES st, prev, hist, depth, view
vars == <<st, prev, hist, depth, view>>
LastOp == hist[Len(hist)]

\* --- the state up to the numbering of containers -------------------------
RECURSIVE Order(_, _, _)
Order(h, seen, r) ==
    IF ~IsP(r) \/ In(seen, r[2]) THEN seen
    ELSE LET n == Node(h, r)
             kids == CASE n[1] \in {"o", "m"} -> [i \in 1..Len(n[2]) |-> n[2][i][2]] [] n[1] \in {"a", "l"} -> n[2] [] OTHER -> <<>>
         IN FoldLeft(LAMBDA acc, x : Order(h, acc, x), Append(seen, r[2]), kids)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Canon(s) ==
    LET ord == FoldLeft(LAMBDA acc, x : Order(s.heap, acc, x), <<>>, s.reg)
        ref(r) == IF IsP(r) THEN <<"p", IndexOf(ord, r[2])>> ELSE r
        node(n) == CASE n[1] \in {"o", "m"} -> <<n[1], [i \in 1..Len(n[2]) |-> <<n[2][i][1], ref(n[2][i][2])>>]>>
                     [] n[1] \in {"a", "l"} -> <<n[1], [i \in 1..Len(n[2]) |-> ref(n[2][i])]>>
                     [] OTHER -> n
    IN <<[i \in 1..Len(ord) |-> node(s.heap[ord[i]])], [q \in 1..Len(s.reg) |-> ref(s.reg[q])]>>

\* --- documents to start from ----------------------------------------------
a == B("a")  b == B("b")  c == B("c")  A == B("A")
One == IntT(<<49>>)
X == Str(B("x"))
O1(k, v) == Obj(<<<<k, v>>>>)
O2(k, v, j, w) == Obj(Put(Put(<<>>, k, v), j, w))
Kelvin == <<226, 132, 170>>
Eac == <<195, 169>>
EacU == <<195, 137>>

Starts ==
    CASE Profile = "edit" -> {<<EmptyObj, EmptyArr, X, O2(a, One, c, Null), Null>>}
      [] Profile = "path" -> {<<d, One, Null, EmptyObj>> : d \in {EmptyObj, O2(a, O1(b, One), c, Null), O2(a, Null, b, X), O1(a, O1(a, O1(a, X))), O1(a, Arr(<<O1(a, X)>>))}}
      [] Profile = "fold" -> {<<d, One, Null>> : d \in {
                               Obj(Put(Put(Put(<<>>, a, One), A, X), B("aa"), Null)),
                               O2(Kelvin, X, B("k"), One), O2(Kelvin, X, B("K"), One), O1(Eac, One), O2(EacU, X, Eac, One),
                               O2(A, O1(B("B"), One), a, O1(b, X)), O2(A, O2(b, One, B("B"), Null), B("z"), X), EmptyObj, Arr(<<X>>)}}
      [] Profile = "copy" -> {<<O2(a, O1(b, Arr(<<One>>)), c, EmptyArr), Null, Null, X>>, <<Arr(<<O1(a, One), EmptyArr, X>>), Null, Null, One>>}
      [] Profile = "merge" -> LET S == {EmptyObj, O1(a, One), O1(a, X), O1(b, EmptyObj), O2(a, One, b, X), O1(a, MkFloat(FALSE, <<49>>, 1)), O2(a, Null, c, One), O2(b, EmptyArr, c, X), Obj(<<<<a, O1(a, One)>>, <<b, One>>, <<c, X>>>>)}
                              IN {<<d, e, Null, Null, Null, Null>> : d \in S, e \in S \cup {X, Null, Arr(<<One>>)}}
      [] Profile = "equal" -> LET L == {Null, Bool(TRUE), Bool(FALSE), One, IntT(<<48>>), MkFloat(FALSE, <<49>>, 1), MkFloat(FALSE, B("15"), 1), Str(<<>>), Str(B("1")), Str(B("true")), Str(B("null")), EmptyArr, EmptyObj}
                                  S == L \cup {Arr(<<x>>) : x \in L} \cup {O1(a, x) : x \in L} \cup {Arr(<<One, X>>), Arr(<<X, One>>), O2(a, One, b, X), O2(a, X, b, One), O2(a, One, c, X), O1(A, One), O1(<<>>, Null), Arr(<<O1(a, One)>>), Arr(<<O1(a, X)>>), O1(a, O2(a, One, b, X)), O1(a, O2(a, One, b, One)), Arr(<<Null, Null>>)}
                              IN {<<d, e>> : d \in S, e \in S}
      [] Profile = "plain" -> {<<d, Null, Null, x>> : x \in {X, Null}, d \in {O2(a, O1(b, Arr(<<One>>)), c, EmptyArr), Arr(<<O1(a, One), EmptyObj, Null>>), MkFloat(FALSE, <<49>>, 1), Bool(FALSE)}}
      [] Profile = "ask" -> LET L == {Null, Bool(TRUE), Bool(FALSE), One, IntT(<<48>>), MkFloat(FALSE, B("15"), 1), Str(<<>>), Str(B("Yes")), Str(B(" on ")), Str(B("true1")), Str(B("null")), EmptyArr, EmptyObj,
                                      Arr(<<One, X, Null, Arr(<<X>>)>>), Obj(<<<<B("0"), X>>>>), Obj(<<<<B("0"), One>>, <<B("1"), O1(a, X)>>, <<B("10"), X>>, <<B("2"), Null>>>>), Obj(<<<<B("1"), X>>>>)}
                                M == {Str(<<>>), X, Null, One, EmptyArr, Bool(FALSE)}
                                R == {Obj(<<<<B("0"), x>>, <<B("1"), y>>, <<B("2"), X>>>>) : x \in M, y \in M}
                            IN {<<d>> : d \in L \cup {O1(a, x) : x \in L \cup R \cup {Arr(<<x, y, X>>) : x \in M, y \in M}} \cup {O2(a, x, b, y) : x \in L, y \in {Null, X, Str(<<>>)}}
                                              \cup {Obj(<<<<B("a"), x>>, <<B("a.0"), y>>, <<B("a.1"), z>>, <<B("a.3"), X>>>>) : x \in {Null, Arr(<<One>>)}, y \in L, z \in {Null, X, Str(<<>>)}}}

\* --- calls -----------------------------------------------------------------
Regs == 1..Len(st.reg)
EditCalls ==
    {<<"set", 1, k, s>> : k \in {a, b, <<>>}, s \in {2, 3, 4, 5}} \cup {<<"set", 4, a, s>> : s \in {2, 3}}
    \cup {<<"rem", 1, k>> : k \in {a, b, c, <<>>}}
    \cup {<<"upd", 1, 4>>, <<"updd", 1, 4>>, <<"upd", 4, 1>>, <<"upd", 1, 1>>, <<"upd", 1, 2>>}
    \cup {<<"app", 2, ss>> : ss \in {<<3>>, <<4>>, <<3, 1>>, <<>>}}
    \cup {<<"setat", 2, n, s>> : n \in {0, 1}, s \in {3, 4}}
    \cup {<<"get", 1, <<a>>, 5>>, <<"getat", 2, -1, <<>>, 5>>, <<"add", 1, <<a, b>>, 3>>, <<"copy", 1, 5>>, <<"size", 1>>, <<"klist", 1>>, <<"text", 1>>, <<"text", 2>>, <<"remic", 4, A>>}
Paths == {<<k>> : k \in {a, b}} \cup {<<k, j>> : k \in {a, b, c}, j \in {a, b}} \cup {<<a, a, j>> : j \in {a, b}} \cup {<<a, a, a, a>>}
PathCalls ==
    {<<"add", 1, p, s>> : p \in Paths, s \in {2, 3, 4}} \cup {<<"val", 1, p>> : p \in Paths \cup {<<>>}} \cup {<<"has", 1, p>> : p \in Paths \cup {<<>>}}
    \cup {<<"str", 1, p>> : p \in {<<a>>, <<a, b>>}} \cup {<<"get", 1, p, 4>> : p \in {<<a>>, <<a, b>>}} \cup {<<"val", 2, p>> : p \in {<<>>, <<a>>}} \cup {<<"has", 3, p>> : p \in {<<>>, <<a>>}}
FoldKeys == {a, A, b, B("B"), B("Aa"), B("k"), B("K"), Kelvin, Eac, EacU, B("z"), <<>>, B("@")}
FoldCalls ==
    LET ps == {<<k>> : k \in FoldKeys} \cup {<<k, j>> : k \in {a, A}, j \in {b, B("B"), A}} \cup {<<>>} IN
    {<<"valic", 1, p>> : p \in ps} \cup {<<"hasic", 1, p>> : p \in ps} \cup {<<"has", 1, p>> : p \in {<<a>>, <<A>>}}
    \cup (IF RObj(st.heap, st.reg[1]) THEN {<<"remic", 1, k>> : k \in FoldKeys} \cup {<<"set", 1, k, 2>> : k \in {A, B("k"), EacU}} \cup {<<"rem", 1, k>> : k \in {a, B("K")}} ELSE {})
    \cup {<<"getic", 1, <<A>>, 3>>, <<"valic", 2, <<a>>>>, <<"hasic", 2, <<>>>>}
CopyCalls ==
    {<<"deep", r, q>> : r \in {1, 2}, q \in {2, 3}}
    \cup {<<"get", r, <<k>>, q>> : r \in {1, 2}, k \in {a, c}, q \in {3}} \cup {<<"getat", r, 0, <<>>, 3>> : r \in {1, 2}}
    \cup {<<c0, r, 2>> : c0 \in {"copy", "acopy", "keys"}, r \in {1}} \cup {<<"mkarr", 2, 3>>}
    \cup {<<c0, 1, 2, ks>> : c0 \in {"copyx", "copye", "copyi"}, ks \in {<<>>, <<a>>, <<c, B("q")>>, <<c, a>>}}
    \cup {<<"map", 1, <<>>, 2>>, <<"vmap", 1, <<>>, 2>>, <<"map", 1, <<a>>, 2>>, <<"arr", 1, <<>>, 2>>, <<"arr", 1, <<c>>, 2>>, <<"varr", 1, <<>>, 2>>}
    \cup {<<"set", r, a, 4>> : r \in {1, 2, 3}} \cup {<<"rem", r, a>> : r \in {1, 2, 3}} \cup {<<"app", r, <<4>>>> : r \in {1, 2, 3}} \cup {<<"setat", r, 0, 4>> : r \in {1, 2, 3}}
    \cup {<<"mset", 2, a, 4>>, <<"mdel", 2, a>>, <<"lset", 2, 0, 4>>, <<"kset", 2, 0, B("q")>>}
MergeCalls ==
    {<<c0, r, s>> : c0 \in {"upd", "updd"}, r \in {1, 2}, s \in {1, 2, 3}} \cup {<<"diff", 1, 2, 3>>, <<"diff", 2, 1, 3>>}
    \cup {<<"set", 1, k, 3>> : k \in {a, b}} \cup {<<"rem", 2, a>>, <<"rem", 3, a>>, <<"get", 4, <<a>>, 6>>, <<"app", 6, <<2>>>>}
EqualCalls == {<<"eq", r, s>> : r, s \in {1, 2}} \cup {<<"text", 1>>, <<"text", 2>>, <<"deep", 1, 2>>, <<"size", 1>>, <<"zero", 1>>}
PlainCalls ==
    {<<"plain", r, q>> : r \in {1, 3}, q \in {2}} \cup {<<"plain", 1, 3>>, <<"all", 2, 3>>, <<"eq", 1, 3>>, <<"zero", 1>>, <<"zero", 3>>, <<"size", 3>>}
    \cup {<<"gset", 2, p, s>> : p \in {<<a>>, <<a, b>>, <<a, b, B("0")>>, <<B("0")>>, <<B("0"), a>>, <<c, a>>}, s \in {3, 4}}
    \cup {<<"gdel", 2, p>> : p \in {<<a>>, <<a, b>>}} \cup {<<"gget", 2, p, 3>> : p \in {<<a>>, <<B("0")>>}}
    \cup {<<"set", r, a, 4>> : r \in {1, 3}} \cup {<<"app", r, <<4>>>> : r \in {1, 3}} \cup {<<"get", 1, <<c>>, 3>>, <<"getat", 1, 1, <<>>, 3>>}
AskCalls ==
    LET ks == {<<>>, <<a>>, <<b>>, <<a, b>>, <<b, a>>, <<c, a>>, <<a, c>>} IN
    {<<c0, 1, p>> : c0 \in {"req", "first"}, p \in ks} \cup {<<"slist", 1, p>> : p \in {<<>>, <<a>>, <<c>>, <<a, B("0")>>}}
    \cup {<<c0, 1, k>> : c0 \in {"qlist", "pfx"}, k \in {a, b, c}} \cup {<<"qbool", 1, k, n>> : k \in {a, c}, n \in {0, 1}} \cup {<<"texts", 1>>}
Calls == CASE Profile = "plain" -> PlainCalls [] Profile = "ask" -> AskCalls [] Profile = "edit" -> EditCalls [] Profile = "path" -> PathCalls [] Profile = "fold" -> FoldCalls
           [] Profile = "copy" -> CopyCalls [] Profile = "merge" -> MergeCalls [] Profile = "equal" -> EqualCalls

Binds(op, q) == CASE op[1] \in {"deep", "copy", "acopy", "copyx", "copye", "copyi", "mkarr", "keys", "plain", "all"} -> op[3] = q
                  [] op[1] \in {"get", "getic", "map", "vmap", "arr", "varr", "gget"} -> op[4] = q
                  [] op[1] = "getat" -> op[5] = q
                  [] op[1] = "diff" -> q \in op[4]..(op[4] + 3)
                  [] op[1] = "lit" -> op[2] = q
                  [] OTHER -> FALSE
\* the kind of thing variable q holds: "d" document, "m" map, "l" slice, "k" key list
RECURSIVE KindAt(_, _)
KindAt(q, i) == IF i = 0 THEN "d"
                ELSE IF Binds(hist[i], q)
                THEN (CASE hist[i][1] \in {"map", "vmap"} -> "m" [] hist[i][1] \in {"arr", "varr"} -> "l" [] hist[i][1] = "keys" -> "k" [] hist[i][1] \in {"plain", "gget"} -> "g" [] OTHER -> "d")
                ELSE KindAt(q, i - 1)
Kind(q) == KindAt(q, Len(hist))
Kinds == [q \in 1..Len(st.reg) |-> Kind(q)]
View == view
Uses(op) == CASE op[1] \in {"set", "add", "setat"} -> {op[2], op[4]} [] op[1] = "app" -> {op[2]} \cup {op[3][i] : i \in 1..Len(op[3])}
              [] op[1] \in {"upd", "updd", "eq", "diff"} -> {op[2], op[3]} [] op[1] \in {"mset", "lset"} -> {op[4]}
              [] op[1] \in {"mdel", "kset", "mkarr", "all", "gset", "gdel", "gget"} -> {} [] op[1] = "appl" -> {op[2]} [] OTHER -> {op[2]}
Fits(op) == /\ \A q \in Uses(op) : Kind(q) = "d"
            /\ op[1] \in {"mset", "mdel"} => Kind(op[2]) = "m"
            /\ op[1] \in {"lset", "mkarr"} => Kind(op[2]) = "l"
            /\ op[1] = "kset" => Kind(op[2]) = "k"
            /\ op[1] \in {"all", "gset", "gdel", "gget"} => Kind(op[2]) = "g"
Init == \E s \in Starts :
          LET ops == [i \in 1..Len(s) |-> <<"lit", i, s[i]>>]
          IN /\ hist = ops
             /\ st = FoldLeft(LAMBDA acc, o : Do(acc, o)[1], [heap |-> <<>>, reg |-> [q \in 1..Len(s) |-> Null]], ops)
             /\ prev = st /\ depth = 0 /\ view = <<s>>
Assigned(op) == {q \in 1..Len(st.reg) : Binds(op, q)}
\* a call that changed nothing leads nowhere new
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ depth = 0 \/ Canon(prev) # Canon(st) \/ Assigned(LastOp) # {}
        /\ \E op \in Calls :
             /\ (Fits(op) /\ Valid(st, op)) = TRUE
             /\ LET d == Do(st, op) IN
                /\ st' = d[1]
                \* a failed lookup would leave its variable as it was
                /\ (d[2] # Err \/ op[1] \notin {"get", "getic", "getat", "map", "arr"}) = TRUE
             /\ prev' = st /\ hist' = Append(hist, op)
             /\ view' = <<depth, Canon(st), Kinds, op>>
Spec == Init /\ [][Next]_vars

\* --- laws --------------------------------------------------------------------
T(s, q) == Tree(s.heap, s.reg[q])
EditsDoc == {"set", "add", "rem", "remic", "upd", "updd", "app", "setat", "mset", "mdel", "lset", "kset"}
Members(t) == t[2]
\* what a call may touch: the container it edits (for a key path, one on the path)
Touched(op) == IF op[1] \in {"add", "gset", "gdel"} THEN {r \in ReachFrom(prev.heap, prev.reg[op[2]]) : TRUE}
               ELSE IF op[1] \in EditsDoc /\ IsP(prev.reg[op[2]]) THEN {prev.reg[op[2]][2]} ELSE {}
Frame == depth = 0 \/ \A q \in Regs \ Assigned(LastOp) :
            (IsP(prev.reg[q]) /\ Touched(LastOp) \cap ReachFrom(prev.heap, prev.reg[q]) # {}) \/ T(st, q) = T(prev, q)
Sane == \A q \in Regs : Kind(q) = "k" \/ WellFormed(T(st, q))
MapLaws ==
    depth = 0 \/ LET op == LastOp IN
    CASE op[1] = "set" -> /\ At(Members(T(st, op[2])), op[3]) = Tree(st.heap, prev.reg[op[4]])
                          /\ Del(Members(T(st, op[2])), op[3]) = Del(Members(T(prev, op[2])), op[3])
      [] op[1] = "rem" -> Members(T(st, op[2])) = Del(Members(T(prev, op[2])), op[3])
      [] op[1] = "add" -> LET t == Follow(st.heap, st.reg[op[2]], op[3], FALSE)
                              o == Do(prev, op)[2]
                          IN IF o = Err THEN T(st, op[2]) = T(prev, op[2])
                             ELSE Tree(st.heap, t[2]) = Tree(st.heap, prev.reg[op[4]])
      [] op[1] = "remic" -> LET m == Members(T(st, op[2])) IN
                            /\ \A i \in 1..Len(m) : ~EqFold(m[i][1], op[3])
                            /\ \A p \in Range(Members(T(prev, op[2]))) : EqFold(p[1], op[3]) \/ \E i \in 1..Len(m) : m[i] = p
      [] op[1] = "upd" /\ RObj(prev.heap, prev.reg[op[3]]) ->
           LET m == Members(T(st, op[2]))  x == Members(T(prev, op[2]))  y == Members(T(prev, op[3])) IN
           /\ \A p \in Range(y) : Has(m, p[1]) /\ (At(m, p[1]) = p[2] \/ op[2] = op[3] \/ prev.reg[op[2]][2] \in ReachFrom(prev.heap, prev.reg[op[3]]))
           /\ \A p \in Range(x) : Has(m, p[1]) /\ (Has(y, p[1]) \/ At(m, p[1]) = p[2])
           /\ \A i \in 1..Len(m) : Has(x, m[i][1]) \/ Has(y, m[i][1])
           /\ op[2] # op[3] => T(st, op[3]) = T(prev, op[3]) \/ prev.reg[op[2]] = prev.reg[op[3]]
      [] op[1] = "updd" /\ RObj(prev.heap, prev.reg[op[3]]) ->
           LET m == Members(T(st, op[2]))  x == Members(T(prev, op[2]))  y == Members(T(prev, op[3])) IN
           /\ \A p \in Range(x) : Has(m, p[1]) /\ At(m, p[1]) = p[2]
           /\ \A p \in Range(y) : Has(m, p[1]) /\ (Has(x, p[1]) \/ At(m, p[1]) = p[2])
           /\ \A i \in 1..Len(m) : Has(x, m[i][1]) \/ Has(y, m[i][1])
      [] op[1] = "diff" ->
           LET q == op[4]
               anb == Members(T(st, q))  df == Members(T(st, q + 1))  eq == Members(T(st, q + 2))  bna == Members(T(st, q + 3))
               half(i) == [j \in 1..Len(df) |-> <<df[j][1], df[j][2][2][i]>>]
           IN /\ MergePs(MergePs(anb, eq), half(1)) = Members(T(prev, op[2]))
              /\ MergePs(MergePs(bna, eq), half(2)) = Members(T(prev, op[3]))
              /\ \A j \in 1..Len(df) : df[j][2][2][1] # df[j][2][2][2]
      [] op[1] = "deep" -> /\ T(st, op[3]) = T(prev, op[2])
                           /\ IsP(st.reg[op[3]]) => \A q \in Regs \ {op[3]} : ReachFrom(st.heap, st.reg[q]) \cap ReachFrom(st.heap, st.reg[op[3]]) = {}
      [] op[1] \in {"copy", "acopy"} -> T(st, op[3]) = T(prev, op[2]) /\ \A q \in Regs \ {op[3]} : st.reg[op[3]][2] \notin ReachFrom(st.heap, st.reg[q])
      [] op[1] \in {"plain", "all"} -> /\ T(st, op[3]) = T(prev, op[2])
                                       /\ \A q \in Regs \ {op[3]} : ReachFrom(st.heap, st.reg[q]) \cap ReachFrom(st.heap, st.reg[op[3]]) = {}
      [] op[1] = "gset" -> Tree(st.heap, PlainFollow(st.heap, st.reg[op[2]], op[3])[2]) = T(prev, op[4])
      [] op[1] = "eq" -> Do(prev, op)[2][2] = Do(prev, <<"eq", op[3], op[2]>>)[2][2]
                         /\ (Do(prev, op)[2][2] => Render(T(prev, op[2])) = Render(T(prev, op[3])))
      [] OTHER -> TRUE
\* a case-insensitive lookup finds what the exact one finds, when that finds anything
FoldLaws == depth = 0 \/ (LastOp[1] = "valic" => LET x == Do(prev, <<"val", LastOp[2], LastOp[3]>>)[2] IN
                             (x # Err /\ Len(LastOp[3]) <= 1) => x = Do(prev, LastOp)[2])
\* a plain value holds no document and no document holds a plain value
Apart == \A i \in 1..Len(st.heap) :
           LET n == st.heap[i]
               kids == CASE n[1] \in {"o", "m"} -> {n[2][j][2] : j \in 1..Len(n[2])} [] n[1] \in {"a", "l"} -> ToSet(n[2]) [] OTHER -> {}
           IN n[1] \in {"o", "a", "m", "l"} => \A x \in kids : IsP(x) => (st.heap[x[2]][1] \in {"m", "l"}) = (n[1] \in {"m", "l"})
\* the questions among each other
AskLaws ==
    depth = 0 \/ LET op == LastOp
                     is(o) == Do(prev, o)[2]
                 IN
    CASE op[1] = "req" -> is(op) = <<"ok">> => \A i \in 1..Len(op[3]) : is(<<"has", op[2], <<op[3][i]>>>>) = Ok(TRUE) /\ is(<<"req", op[2], <<op[3][i]>>>>) = <<"ok">>
      [] op[1] = "first" -> LET x == is(op) IN
                            IF x[2] = <<>> THEN \A i \in 1..Len(op[3]) : is(<<"str", op[2], <<op[3][i]>>>>) \in {Err, Ok(<<>>)}
                            ELSE is(<<"str", op[2], <<x[3]>>>>) = Ok(x[2])
      [] op[1] = "slist" -> LET x == is(<<"list", op[2], op[3]>>) IN IF x = Err THEN is(op) = Err ELSE Len(is(op)[2]) = Len(x[2])
      [] op[1] = "pfx" -> LET x == is(op)[2] IN \A i \in 1..Len(x) : x[i] # Null /\ is(<<"val", op[2], <<op[3] \o B(".") \o DecOf(i - 1)>>>>) = Ok(x[i])
      [] op[1] = "qbool" -> LET x == is(<<"bool", op[2], <<op[3]>>>>) IN
                            /\ is(<<"has", op[2], <<op[3]>>>>) = Ok(FALSE) => is(op) = Ok(op[4] = 1)
                            /\ x # Err => is(op) = x
      [] OTHER -> TRUE
Out == ~Emit \/ depth = 0 \/ PrintT("CASE " \o ToJson([n |-> Len(st.reg), ops |-> Append(hist, <<"mark">>)]))
\* makes TLC evaluate the parts of a state that VIEW leaves out before it stores them
Forced == ToJson(<<st, prev, hist>>) # ""
=============================================================================
