-------------------------------- MODULE JHeap --------------------------------
(***************************************************************************)
(* Documents as a user holds them: containers with identity that are       *)
(* edited in place and may be held at several places.                      *)
(*                                                                         *)
(* A state is [heap, reg].  heap[i] is container i,                        *)
(*   <<"o", members>>  members <<key, ref>> in ascending key order          *)
(*   <<"a", refs>>                                                         *)
(*   <<"k", keys>>     a key list handed out                               *)
(*   <<"m", members>>  a map and                                           *)
(*   <<"l", refs>>     a slice of plain Go values                          *)
(* reg[j] is what the user's variable j holds.  A ref is a scalar document *)
(* or <<"p", i>>.  Maps and slices handed out are containers too.          *)
(*                                                                         *)
(* Do(st, op) is <<next state, result>>.                                   *)
(***************************************************************************)
EXTENDS JRender, JParse, JFold, JTime

Err == <<"err">>
Ok(x) == <<"ok", x>>
IsP(r) == r[1] = "p"
Node(h, r) == h[r[2]]
RObj(h, r) == IsP(r) /\ Node(h, r)[1] = "o"
RArr(h, r) == IsP(r) /\ Node(h, r)[1] = "a"

(* --- trees and allocation ------------------------------------------------ *)
RECURSIVE Tree(_, _)
Tree(h, r) ==
    IF ~IsP(r) THEN r
    ELSE LET n == Node(h, r) IN
         CASE n[1] \in {"o", "m"} -> Obj([i \in 1..Len(n[2]) |-> <<n[2][i][1], Tree(h, n[2][i][2])>>])
           [] n[1] \in {"a", "l"} -> Arr([i \in 1..Len(n[2]) |-> Tree(h, n[2][i])])
           [] OTHER -> n

RECURSIVE AllocAs(_, _, _, _)
\* <<heap, ref>>: a fresh copy of document v, in containers of these kinds
AllocAs(h, v, arr, obj) ==
    CASE v[1] = "a" ->
           LET f == FoldLeft(LAMBDA acc, x : LET r == AllocAs(acc[1], x, arr, obj) IN <<r[1], Append(acc[2], r[2])>>, <<h, <<>>>>, v[2])
           IN <<Append(f[1], <<arr, f[2]>>), <<"p", Len(f[1]) + 1>>>>
      [] v[1] = "o" ->
           LET f == FoldLeft(LAMBDA acc, p : LET r == AllocAs(acc[1], p[2], arr, obj) IN <<r[1], Append(acc[2], <<p[1], r[2]>>)>>, <<h, <<>>>>, v[2])
           IN <<Append(f[1], <<obj, f[2]>>), <<"p", Len(f[1]) + 1>>>>
      [] OTHER -> <<h, v>>
Alloc(h, v) == AllocAs(h, v, "a", "o")
AllocPlain(h, v) == AllocAs(h, v, "l", "m")
New(h, n) == <<Append(h, n), <<"p", Len(h) + 1>>>>

RECURSIVE ReachFrom(_, _)
\* the containers reachable from a ref
ReachFrom(h, r) ==
    IF ~IsP(r) THEN {}
    ELSE LET n == Node(h, r) IN
         {r[2]} \cup (CASE n[1] \in {"o", "m"} -> UNION {ReachFrom(h, n[2][i][2]) : i \in 1..Len(n[2])}
                        [] n[1] \in {"a", "l"} -> UNION {ReachFrom(h, n[2][i]) : i \in 1..Len(n[2])}
                        [] OTHER -> {})

(* --- lookups ------------------------------------------------------------- *)
RECURSIVE FirstFold(_, _, _)
FirstFold(ps, k, i) == IF i > Len(ps) THEN 0 ELSE IF EqFold(ps[i][1], k) THEN i ELSE FirstFold(ps, k, i + 1)
Lookup(ps, k, ic) ==
    IF Has(ps, k) THEN Ok(At(ps, k))
    ELSE IF ~ic THEN Err
    ELSE LET i == FirstFold(ps, k, 1) IN IF i = 0 THEN Err ELSE Ok(ps[i][2])
RECURSIVE Follow(_, _, _, _)
\* following a key path from an object: <<"ok", ref>> or <<"err">>
Follow(h, r, ks, ic) ==
    IF ~RObj(h, r) THEN Err
    ELSE IF ks = <<>> THEN Ok(r)
    ELSE LET x == Lookup(Node(h, r)[2], Head(ks), ic) IN
         IF x = Err \/ Len(ks) = 1 THEN x ELSE Follow(h, x[2], Tail(ks), ic)
\* the value a typed accessor with a key path speaks of
Target(h, r, ks) == IF ks = <<>> THEN Ok(r) ELSE Follow(h, r, ks, FALSE)

(* --- typed reading -------------------------------------------------------- *)
YesWords == {B("true"), B("on"), B("yes")}
NoWords == {B("false"), B("off"), B("no")}
IsInt10(s) == IsInt64(s)
FloatOfInt(t) == MkFloat(Neg(t), Mag(t), Len(Mag(t)))
AsInt(v) == CASE IsI(v) -> Ok(v[2])
              [] IsS(v) -> IF IsInt10(v[2]) THEN Ok(IntText(v[2])) ELSE Err
              [] OTHER -> Err
AsFloat(v) == CASE IsF(v) -> Ok(v)
                [] IsI(v) -> Ok(Blur(FloatOfInt(v[2])))
                [] IsS(v) -> LET f == FloatWord(v[2]) IN IF f[1] = "f" THEN Ok(Blur(f)) ELSE Err
                [] OTHER -> Err
AsBool(v) == CASE IsB(v) -> Ok(v[2])
               [] IsS(v) -> LET w == Fold(v[2]) IN
                            IF w \in YesWords \/ v[2] = B("1") THEN Ok(TRUE)
                            ELSE IF w \in NoWords \/ v[2] = B("0") THEN Ok(FALSE) ELSE Err
               [] OTHER -> Err
AsTime(v) == IF ~IsS(v) THEN Err ELSE TimeOf(v[2])
AsText(v) == IF IsS(v) THEN v[2] ELSE Render(v)

Typed(h, kind, r) ==
    LET v == IF IsP(r) /\ kind # "str" THEN Null ELSE Tree(h, r) IN
    CASE kind = "int" -> AsInt(v)
      [] kind = "float" -> AsFloat(v)
      [] kind = "bool" -> AsBool(v)
      [] kind = "time" -> AsTime(v)
      [] kind = "str" -> Ok(AsText(v))

Pos(n, len) == IF n < 0 THEN len + n ELSE n
ElementAt(h, r, n) ==
    IF ~RArr(h, r) THEN Err
    ELSE LET xs == Node(h, r)[2]
             i == Pos(n, Len(xs))
         IN IF i >= 0 /\ i < Len(xs) THEN Ok(xs[i + 1]) ELSE Err
\* the array a value is asked for, as refs
AsArray(h, r) == IF RArr(h, r) THEN Ok(Node(h, r)[2])
                 ELSE IF IsP(r) \/ IsN(r) THEN Err
                 ELSE Ok(<<r>>)

(* --- whole-document views ------------------------------------------------ *)
SizeOf(h, r) == IF IsP(r) THEN Len(Node(h, r)[2]) ELSE IF IsS(r) THEN Len(r[2]) ELSE -1
ZeroOf(h, r) == IF IsP(r) THEN Node(h, r)[2] = <<>>
                ELSE CASE IsN(r) -> TRUE [] IsB(r) -> ~r[2] [] IsI(r) -> r[2] = <<48>>
                       [] IsF(r) -> r[3] = <<>> [] IsS(r) -> r[2] = <<>>

(* --- plain Go values ------------------------------------------------------ *)
PlainAt(h, r, k) ==
    IF ~IsP(r) THEN Err
    ELSE LET n == Node(h, r) IN
         CASE n[1] = "m" -> IF Has(n[2], k) THEN Ok(At(n[2], k)) ELSE Err
           [] n[1] = "l" -> IF k # <<>> /\ AllDigits(k) /\ Len(k) < 4 /\ NatOf(k) < Len(n[2]) THEN Ok(n[2][NatOf(k) + 1]) ELSE Err
           [] OTHER -> Err
RECURSIVE PlainFollow(_, _, _)
PlainFollow(h, r, ks) == IF ks = <<>> THEN Ok(r)
                         ELSE LET x == PlainAt(h, r, Head(ks)) IN IF x = Err THEN Err ELSE PlainFollow(h, x[2], Tail(ks))
\* the map or slice a path leads into: its ref, or <<"err">>
PlainParent(h, r, ks) == IF ks = <<>> THEN Err ELSE PlainFollow(h, r, SubSeq(ks, 1, Len(ks) - 1))
PlainPut(n, k, x) == IF n[1] = "m" THEN <<"m", Put(n[2], k, x)>> ELSE <<"l", [n[2] EXCEPT ![NatOf(k) + 1] = x]>>

(* --- questions answered from several members ------------------------------ *)
RequiredOk(h, r, fs) == RObj(h, r) /\ \A i \in 1..Len(fs) : Has(Node(h, r)[2], fs[i]) /\ At(Node(h, r)[2], fs[i]) # Null
TextOfRef(h, r) == AsText(Tree(h, r))
RECURSIVE Numbered(_, _, _)
\* the members named pre followed by 0, 1, 2, ... up to the first that is missing
Numbered(ps, pre, i) == LET k == pre \o DecOf(i) IN IF Has(ps, k) THEN <<At(ps, k)>> \o Numbered(ps, pre, i + 1) ELSE <<>>
RECURSIVE UpToNull(_)
UpToNull(rs) == IF rs = <<>> \/ Head(rs) = Null THEN <<>> ELSE <<Head(rs)>> \o UpToNull(Tail(rs))
QueryTexts(h, r, k) ==
    LET x == Follow(h, r, <<k>>, FALSE) IN
    IF x = Err THEN <<>>
    ELSE IF RArr(h, x[2]) THEN [i \in 1..Len(Node(h, x[2])[2]) |-> TextOfRef(h, Node(h, x[2])[2][i])]
    ELSE IF RObj(h, x[2]) THEN LET m == Numbered(Node(h, x[2])[2], <<>>, 0) IN [i \in 1..Len(m) |-> TextOfRef(h, m[i])]
    ELSE IF x[2][1] = "s" THEN <<x[2][2]>> ELSE <<>>
RECURSIVE FirstText(_, _, _)
FirstText(h, r, ks) ==
    IF ks = <<>> THEN <<"ok", <<>>, <<>>>>
    ELSE LET x == Follow(h, r, <<Head(ks)>>, FALSE)
             t == IF x = Err THEN <<>> ELSE TextOfRef(h, x[2])
         IN IF t # <<>> THEN <<"ok", t, Head(ks)>> ELSE FirstText(h, r, Tail(ks))
Affirms(t) == LowerStr(TrimWide(t)) \in {B("true"), B("yes"), B("on"), B("1")}

(* --- edits ---------------------------------------------------------------- *)
SetNode(st, r, n) == [st EXCEPT !.heap[r[2]] = n]
SetReg(st, q, r) == [st EXCEPT !.reg[q] = r]
\* binds the outcome of a lookup to variable q
Bind(st, q, x) == IF x[1] = "ok" THEN <<SetReg(st, q, x[2]), <<"ok">>>> ELSE <<st, Err>>
\* a fresh container in variable q
Fresh(st, q, n) == LET a == New(st.heap, n) IN [st EXCEPT !.heap = a[1], !.reg[q] = a[2]]

MergePs(ps, over) == FoldLeft(LAMBDA acc, p : Put(acc, p[1], p[2]), ps, over)

RECURSIVE AddAt(_, _, _, _)
\* <<heap, result>>: set ref x at a key path below object r
AddAt(h, r, ks, x) ==
    LET ps == Node(h, r)[2] IN
    IF Len(ks) = 1 THEN <<[h EXCEPT ![r[2]] = <<"o", Put(ps, ks[1], x)>>], <<"ok">>>>
    ELSE LET miss == ~Has(ps, ks[1]) \/ At(ps, ks[1]) = Null
             a == New(h, <<"o", <<>>>>)
             h1 == IF miss THEN [a[1] EXCEPT ![r[2]] = <<"o", Put(ps, ks[1], a[2])>>] ELSE h
             nx == IF miss THEN a[2] ELSE At(ps, ks[1])
         IN IF ~RObj(h1, nx) THEN <<h, Err>> ELSE AddAt(h1, nx, Tail(ks), x)

In(ks, k) == \E i \in 1..Len(ks) : ks[i] = k
DiffParts(h, ra, rb) ==
    LET a == Node(h, ra)[2]
        b == Node(h, rb)[2]
        both == SelectSeq(a, LAMBDA p : Has(b, p[1]))
        same(p) == Tree(h, p[2]) = Tree(h, At(b, p[1]))
    IN [anb |-> SelectSeq(a, LAMBDA p : ~Has(b, p[1])),
        bna |-> SelectSeq(b, LAMBDA p : ~Has(a, p[1])),
        eq  |-> SelectSeq(both, LAMBDA p : same(p)),
        df  |-> SelectSeq(both, LAMBDA p : ~same(p))]

RECURSIVE MarkAll(_, _, _)
MarkKey(n) == B("~") \o DecOf(n)
\* walks containers depth first and tags each with its number in the walk: <<heap, tagged ids in order>>
MarkAll(h, seen, r) ==
    IF ~IsP(r) \/ Node(h, r)[1] \in {"m", "l"} \/ In(seen, r[2]) THEN <<h, seen>>
    ELSE LET n == Node(h, r)
             s1 == Append(seen, r[2])
             kids == CASE n[1] = "o" -> [i \in 1..Len(n[2]) |-> n[2][i][2]] [] n[1] = "a" -> n[2] [] OTHER -> <<>>
             f == FoldLeft(LAMBDA acc, x : MarkAll(acc[1], acc[2], x), <<h, s1>>, kids)
             tag == MarkKey(Len(s1))
             n1 == CASE n[1] = "o" -> <<"o", Put(n[2], tag, Null)>>
                     [] n[1] = "a" -> <<"a", Append(n[2], Str(tag))>>
                     [] OTHER -> <<"k", Append(n[2], tag)>>
         IN <<[f[1] EXCEPT ![r[2]] = n1], f[2]>>

Do(st, op) ==
    LET h == st.heap
        c == op[1]
        r == IF Len(op) >= 2 THEN st.reg[op[2]] ELSE Null
    IN
    CASE c = "lit" -> LET a == Alloc(h, op[3]) IN <<[heap |-> a[1], reg |-> [st.reg EXCEPT ![op[2]] = a[2]]], <<"ok">>>>
      \* edits
      [] c = "set" -> <<SetNode(st, r, <<"o", Put(Node(h, r)[2], op[3], st.reg[op[4]])>>), <<"ok">>>>
      [] c = "add" -> LET a == AddAt(h, r, op[3], st.reg[op[4]]) IN <<[st EXCEPT !.heap = a[1]], a[2]>>
      [] c = "rem" -> <<SetNode(st, r, <<"o", Del(Node(h, r)[2], op[3])>>), Ok(Has(Node(h, r)[2], op[3]))>>
      [] c = "remic" -> LET kept == SelectSeq(Node(h, r)[2], LAMBDA p : ~EqFold(p[1], op[3]))
                        IN <<SetNode(st, r, <<"o", kept>>), Ok(Len(kept) # Len(Node(h, r)[2]))>>
      [] c \in {"upd", "updd"} ->
           LET s == st.reg[op[3]] IN
           IF ~RObj(h, s) THEN <<st, <<"ok">>>>
           ELSE <<SetNode(st, r, <<"o", IF c = "upd" THEN MergePs(Node(h, r)[2], Node(h, s)[2]) ELSE MergePs(Node(h, s)[2], Node(h, r)[2])>>), <<"ok">>>>
      [] c = "app" -> <<SetNode(st, r, <<"a", Node(h, r)[2] \o [i \in 1..Len(op[3]) |-> st.reg[op[3][i]]]>>), <<"ok">>>>
      [] c = "setat" -> <<SetNode(st, r, <<"a", [Node(h, r)[2] EXCEPT ![op[3] + 1] = st.reg[op[4]]]>>), <<"ok">>>>
      \* copies
      [] c \in {"copy", "acopy"} -> <<Fresh(st, op[3], Node(h, r)), <<"ok">>>>
      [] c \in {"copyx", "copye"} -> <<Fresh(st, op[3], <<"o", SelectSeq(Node(h, r)[2], LAMBDA p : ~In(op[4], p[1]))>>), <<"ok">>>>
      [] c = "copyi" -> <<Fresh(st, op[3], <<"o", SelectSeq(Node(h, r)[2], LAMBDA p : In(op[4], p[1]))>>), <<"ok">>>>
      [] c = "deep" -> LET a == Alloc(h, Tree(h, r)) IN <<[heap |-> a[1], reg |-> [st.reg EXCEPT ![op[3]] = a[2]]], <<"ok">>>>
      [] c = "diff" ->
           LET d == DiffParts(h, r, st.reg[op[3]])
               q == op[4]
               b == Node(h, st.reg[op[3]])[2]
               pairs == FoldLeft(LAMBDA acc, p : LET a == New(acc[1], <<"a", <<p[2], At(b, p[1])>>>>)
                                                 IN <<a[1], Append(acc[2], <<p[1], a[2]>>)>>, <<h, <<>>>>, d.df)
               s1 == [st EXCEPT !.heap = pairs[1]]
               s2 == Fresh(s1, q, <<"o", d.anb>>)
               s3 == Fresh(s2, q + 1, <<"o", pairs[2]>>)
               s4 == Fresh(s3, q + 2, <<"o", d.eq>>)
           IN <<Fresh(s4, q + 3, <<"o", d.bna>>), <<"ok">>>>
      \* taking hold of parts and snapshots
      [] c = "get" -> Bind(st, op[4], Follow(h, r, op[3], FALSE))
      [] c = "getic" -> Bind(st, op[4], Follow(h, r, op[3], TRUE))
      [] c = "getat" -> LET t == Target(h, r, op[4]) IN
                        Bind(st, op[5], IF t = Err THEN Err ELSE ElementAt(h, t[2], op[3]))
      [] c \in {"map", "vmap"} ->
           LET t == Target(h, r, op[3]) IN
           IF t = Err \/ ~RObj(h, t[2]) THEN <<st, Err>> ELSE <<Fresh(st, op[4], Node(h, t[2])), <<"ok">>>>
      [] c \in {"arr", "varr"} ->
           LET t == Target(h, r, op[3])
               x == IF t = Err THEN Err ELSE AsArray(h, t[2])
           IN IF x = Err THEN <<st, Err>> ELSE <<Fresh(st, op[4], <<"a", x[2]>>), <<"ok">>>>
      [] c = "keys" -> <<Fresh(st, op[3], <<"k", KeysOf(Node(h, r)[2])>>), <<"ok">>>>
      [] c = "mkarr" -> <<Fresh(st, op[3], Node(h, r)), <<"ok">>>>
      [] c = "appl" -> <<SetNode(st, r, <<"a", Node(h, r)[2] \o Node(h, st.reg[op[3]])[2]>>), <<"ok">>>>
      \* edits of what was handed out
      [] c = "mset" -> <<SetNode(st, r, <<"o", Put(Node(h, r)[2], op[3], st.reg[op[4]])>>), <<"ok">>>>
      [] c = "mdel" -> <<SetNode(st, r, <<"o", Del(Node(h, r)[2], op[3])>>), <<"ok">>>>
      [] c = "lset" -> <<SetNode(st, r, <<"a", [Node(h, r)[2] EXCEPT ![op[3] + 1] = st.reg[op[4]]]>>), <<"ok">>>>
      [] c = "kset" -> <<SetNode(st, r, <<"k", [Node(h, r)[2] EXCEPT ![op[3] + 1] = op[4]]>>), <<"ok">>>>
      [] c = "mark" -> <<[st EXCEPT !.heap = FoldLeft(LAMBDA acc, x : MarkAll(acc[1], acc[2], x), <<h, <<>>>>, st.reg)[1]], <<"ok">>>>
      \* plain Go values
      [] c = "plain" -> LET a == AllocPlain(h, Tree(h, r)) IN <<[heap |-> a[1], reg |-> [st.reg EXCEPT ![op[3]] = a[2]]], <<"ok">>>>
      [] c = "all" -> LET a == Alloc(h, Tree(h, r)) IN <<[heap |-> a[1], reg |-> [st.reg EXCEPT ![op[3]] = a[2]]], <<"ok">>>>
      [] c = "gset" -> LET t == PlainParent(h, r, op[3])[2] IN <<SetNode(st, t, PlainPut(Node(h, t), op[3][Len(op[3])], st.reg[op[4]])), <<"ok">>>>
      [] c = "gdel" -> LET t == PlainParent(h, r, op[3])[2] IN <<SetNode(st, t, <<"m", Del(Node(h, t)[2], op[3][Len(op[3])])>>), <<"ok">>>>
      [] c = "gget" -> Bind(st, op[4], PlainFollow(h, r, op[3]))
      \* questions answered from several members
      [] c = "mkstr" -> <<Fresh(st, op[2], <<"a", [i \in 1..Len(op[3]) |-> Str(op[3][i])]>>), <<"ok">>>>
      [] c = "req" -> <<st, IF RequiredOk(h, r, op[3]) THEN <<"ok">> ELSE Err>>
      [] c = "qlist" -> <<st, Ok(QueryTexts(h, r, op[3]))>>
      [] c = "slist" -> LET t == Target(h, r, op[3])
                            x == IF t = Err THEN Err ELSE AsArray(h, t[2])
                        IN <<st, IF x = Err THEN Err ELSE Ok([i \in 1..Len(x[2]) |-> TextOfRef(h, x[2][i])])>>
      [] c = "texts" -> <<st, Ok([i \in 1..Len(Node(h, r)[2]) |-> TextOfRef(h, Node(h, r)[2][i])])>>
      [] c = "first" -> <<st, FirstText(h, r, op[3])>>
      [] c = "pfx" -> <<st, Ok(LET m == IF RObj(h, r) THEN UpToNull(Numbered(Node(h, r)[2], op[3] \o B("."), 0)) ELSE <<>>
                               IN [i \in 1..Len(m) |-> Tree(h, m[i])])>>
      [] c = "qbool" -> <<st, Ok(LET x == Follow(h, r, <<op[3]>>, FALSE) IN IF x = Err THEN op[4] = 1 ELSE Affirms(TextOfRef(h, x[2])))>>
      \* reading
      [] c = "has" -> <<st, Ok(Follow(h, r, op[3], FALSE) # Err)>>
      [] c = "hasic" -> <<st, Ok(Follow(h, r, op[3], TRUE) # Err)>>
      [] c \in {"int", "float", "bool", "time", "str"} ->
           LET t == Target(h, r, op[3]) IN <<st, IF t = Err THEN Err ELSE Typed(h, c, t[2])>>
      [] c = "at" -> LET t == Target(h, r, op[4])
                         x == IF t = Err THEN Err ELSE ElementAt(h, t[2], op[3])
                     IN <<st, IF x = Err THEN Err ELSE Ok(Tree(h, x[2]))>>
      [] c = "list" -> LET t == Target(h, r, op[3])
                           x == IF t = Err THEN Err ELSE AsArray(h, t[2])
                       IN <<st, IF x = Err THEN Err ELSE Ok([i \in 1..Len(x[2]) |-> Tree(h, x[2][i])])>>
      [] c = "val" -> LET x == Follow(h, r, op[3], FALSE) IN <<st, IF x = Err THEN Err ELSE Ok(Tree(h, x[2]))>>
      [] c = "valic" -> LET x == Follow(h, r, op[3], TRUE) IN <<st, IF x = Err THEN Err ELSE Ok(Tree(h, x[2]))>>
      [] c = "size" -> <<st, Ok(SizeOf(h, r))>>
      [] c = "zero" -> <<st, Ok(ZeroOf(h, r))>>
      [] c = "klist" -> <<st, Ok(KeysOf(Node(h, r)[2]))>>
      [] c = "text" -> <<st, Ok(Render(Tree(h, r)))>>
      [] c = "eq" -> <<st, Ok(Tree(h, r) = Tree(h, st.reg[op[3]]))>>

\* agreement of an observed result with the specified one
PlainOps == {"gset", "gdel", "gget", "all"}
BoolOps == {"qbool", "rem", "remic", "has", "hasic", "bool", "zero", "eq"}
ResultOk(c, want, got) ==
    IF want[1] = "?" THEN got[1] \in {"ok", "err"}
    ELSE IF want[1] = "err" \/ Len(want) = 1 THEN got[1] = want[1]
    ELSE IF got[1] # "ok" \/ Len(got) # Len(want) THEN FALSE
    ELSE IF c = "float" THEN Same(Blur(got[2]), want[2])
    ELSE got = want

\* operations that make sense in a state; an edit never makes a container hold itself
Obj1 == {"set", "add", "rem", "remic", "upd", "updd", "copy", "copyx", "copye", "copyi", "keys", "klist", "mset", "mdel"}
Arr1 == {"texts", "app", "setat", "acopy", "lset", "mkarr", "appl"}
NoLoop(st, r, x) == ~IsP(x) \/ r[2] \notin ReachFrom(st.heap, x)
Valid(st, op) ==
    LET h == st.heap
        c == op[1]
        r == IF Len(op) >= 2 THEN st.reg[op[2]] ELSE Null
        idx(n) == n >= 0 /\ n < Len(Node(h, r)[2])
    IN /\ c \in Obj1 => RObj(h, r)
       /\ c \in Arr1 => RArr(h, r)
       /\ c \in {"set", "mset"} => NoLoop(st, r, st.reg[op[4]])
       /\ c = "add" => \A i \in 0..Len(op[3]) : LET t == Follow(h, r, SubSeq(op[3], 1, i), FALSE) IN t = Err \/ ~IsP(t[2]) \/ NoLoop(st, t[2], st.reg[op[4]])
       /\ c \in {"setat", "lset"} => idx(op[3]) /\ NoLoop(st, r, st.reg[op[4]])
       /\ c = "app" => \A i \in 1..Len(op[3]) : NoLoop(st, r, st.reg[op[3][i]])
       /\ c = "appl" => RArr(h, st.reg[op[3]]) /\ NoLoop(st, r, st.reg[op[3]])
       /\ c \in {"upd", "updd"} => NoLoop(st, r, st.reg[op[3]]) \/ st.reg[op[3]] = r
       /\ c = "diff" => RObj(h, r) /\ RObj(h, st.reg[op[3]])
       /\ c = "kset" => IsP(r) /\ Node(h, r)[1] = "k" /\ idx(op[3])
       /\ c = "gget" => PlainFollow(h, r, op[3]) # Err
       /\ c \in {"gset", "gdel"} =>
            LET t == PlainParent(h, r, op[3]) IN
            /\ t # Err /\ IsP(t[2]) /\ Node(h, t[2])[1] \in {"m", "l"}
            /\ c = "gdel" => Node(h, t[2])[1] = "m"
            /\ c = "gset" => /\ NoLoop(st, t[2], st.reg[op[4]])
                              /\ (~IsP(st.reg[op[4]]) \/ Node(h, st.reg[op[4]])[1] \in {"m", "l"})
                              /\ (Node(h, t[2])[1] = "m" \/ PlainFollow(h, r, op[3]) # Err)
       /\ c = "vmap" => RObj(h, r)
       /\ c = "varr" => RArr(h, r)
=============================================================================
