------------------------------- MODULE MCStruct -------------------------------
(***************************************************************************)
(* Small Go types, values and documents: the laws of JStruct, and cases    *)
(* for the driver to run with the real library.                            *)
(*   back     types and values: marshalling is undone by unmarshalling     *)
(*   names    one field with every tag and option                          *)
(*   deps     every graph of replacements among three fields               *)
(*   convert  every kind of document onto every kind of variable           *)
(*   overlay  objects onto structs and maps, one after another             *)
(*   custom   types with JSON methods of their own at every position       *)
(*   iface    registered types rebuilt from texts and inside others        *)
(*   hooks    structs with hooks in and around each other                  *)
(***************************************************************************)
EXTENDS JStruct, Json
CONSTANTS Profile, Depth, Emit
VARIABLES case, depth

\* --- vocabulary --------------------------------------------------------------
IntTy(b, s) == <<"int", b, s>>
F64 == <<"float", 64>>
TBool == <<"bool">>  TStr == <<"string">>  TTri == <<"tri">>
Ptr(t) == <<"ptr", t>>  Sl(t) == <<"slice", t>>  Map(t) == <<"map", t>>
Fld(go, t) == [go |-> go, json |-> <<>>, name |-> <<>>, emb |-> "", dep |-> <<>>, edep |-> <<>>, t |-> t]
Tag(f, n, os) == [f EXCEPT !.json = <<n, os>>]
Emb(go, how, fs) == [Fld(go, <<"struct", fs>>) EXCEPT !.emb = how]
St(fs) == <<"struct", fs>>
P(v) == <<"p", v>>  Ls(vs) == <<"l", vs>>  Ms(ps) == <<"m", ps>>  Sv(vs) == <<"st", vs>>
a == B("a")  b == B("b")
Flt(neg, d, e) == MkFloat(neg, B(d), e)

Scalars == {<<TBool, {Bool(TRUE), Bool(FALSE)}>>, <<TStr, {Str(<<>>), Str(B("x")), Str(B("null")), Str(<<DQ, 10>>)}>>,
            <<TTri, {Str(<<>>), Str(B("true")), Str(B("false"))}>>, <<Time, {ZeroTime, <<"t", 18262, 3661, 0>>, <<"t", -1, 86399, 999999000>>}>>,
            <<IntTy(64, TRUE), {IntN(0), IntT(B("-9223372036854775808")), IntN(7)}>>, <<IntTy(8, FALSE), {IntN(0), IntN(255)}>>,
            <<F64, {Flt(FALSE, "", 0), Flt(TRUE, "25", 1), Flt(FALSE, "3", 1)}>>}
Ints == {<<IntTy(32, TRUE), {IntN(0), IntN(-5)}>>}
\* types built from one type and its values
Around(tv) ==
    LET t == tv[1]
        vs == tv[2]
        v1 == CHOOSE v \in vs : v # Zero(t)
    IN {<<Ptr(t), {Nil} \cup {P(v) : v \in vs}>>, <<Sl(t), {Nil, Ls(<<>>)} \cup {Ls(<<v>>) : v \in vs} \cup {Ls(<<v1, Zero(t)>>), Ls(<<Zero(t), v1>>)}>>,
        <<Map(t), {Nil, Ms(<<>>), Ms(<<<<<<>>, v1>>, <<a, Zero(t)>>>>)} \cup {Ms(<<<<a, v>>>>) : v \in vs}>>,
        <<<<"array", 1, t>>, {Ls(<<v>>) : v \in vs}>>,
        <<St(<<Tag(Fld(B("A"), t), <<>>, <<>>), Fld(B("UserID"), Ptr(t))>>), {Sv(<<v, w>>) : v \in vs, w \in {Nil} \cup {P(x) : x \in vs}}>>,
        <<St(<<Emb(B("Base"), "v", <<Fld(B("A"), t)>>), Tag(Fld(B("B"), t), b, <<"allowempty">>)>>), {Sv(<<Sv(<<v>>), w>>) : v, w \in vs}>>,
        <<St(<<Emb(B("Base"), "p", <<Fld(B("A"), t)>>), Tag(Fld(B("B"), Sl(t)), b, <<>>)>>), {Sv(<<x, y>>) : x \in {Nil} \cup {P(Sv(<<v>>)) : v \in vs}, y \in {Nil, Ls(<<v1>>)}}>>}
Vanishing(t) == t[1] \in {"ptr", "slice", "map", "tri"}
One(S) == UNION {Around(tv) : tv \in S}
Two(S) == {tv \in One({x \in One(S) : x[1][1] # "array" /\ Cardinality(x[2]) > 1}) : ~(tv[1][1] = "array" /\ Vanishing(tv[1][3]))}
Shapes(n) == Scalars \cup {tv \in One(Scalars) : tv[1][1] # "array" \/ ~Vanishing(tv[1][3])} \cup (IF n = 1 THEN Two(Ints) ELSE Two(Scalars))

\* documents made of texts where JStruct leaves the text open
Pad2(n) == IF n < 10 THEN <<48, 48 + n>> ELSE DecOf(n)
CivilOf(day) ==    \* <<year, month, day of month>>
    LET z == day + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
RECURSIVE FrontZeros(_, _)
FrontZeros(s, n) == IF Len(s) >= n THEN s ELSE FrontZeros(<<48>> \o s, n)
TimeText(day, sec, nano) ==
    LET c == CivilOf(day) IN
    FrontZeros(DecOf(c[1]), 4) \o <<MINUS>> \o Pad2(c[2]) \o <<MINUS>> \o Pad2(c[3]) \o B("T") \o Pad2(sec \div 3600) \o <<COLON>> \o Pad2((sec \div 60) % 60)
    \o <<COLON>> \o Pad2(sec % 60) \o <<DOT>> \o FrontZeros(DecOf(nano \div 1000), 6) \o B("Z")
RECURSIVE Concrete(_)
Concrete(x) == CASE x[1] = "T" -> Str(TimeText(x[2], x[3], x[4]))
                 [] x[1] = "S" -> Str(Render(Concrete(x[2])))
                 [] x[1] = "a" -> Arr([i \in 1..Len(x[2]) |-> Concrete(x[2][i])])
                 [] x[1] = "o" -> Obj([i \in 1..Len(x[2]) |-> <<x[2][i][1], Concrete(x[2][i][2])>>])
                 [] OTHER -> x

\* --- one field with every tag ---------------------------------------------------
GoNames == {B("A"), B("UserID"), B("HTTPServer"), B("Id2"), B("Foo_Bar")}
JsonTags == {<<>>} \cup {<<n, os>> : n \in {<<>>, B("x-y"), B("-")}, os \in {<<>>, <<"omitzero">>, <<"omitempty", "omitfalse">>, <<"allowempty">>, <<"omitfalse", "allowfalse">>, <<"string">>, <<"omitzero", "string">>}}
NameTags == {<<>>, B("nm")}
FieldTypes == {<<TBool, {Bool(TRUE), Bool(FALSE)}>>, <<IntTy(64, TRUE), {IntN(0), IntN(-3)}>>, <<F64, {Flt(FALSE, "", 0), Flt(FALSE, "25", 1)}>>, <<TStr, {Str(<<>>), Str(B("s"))}>>,
               <<TTri, {Str(<<>>), Str(B("false"))}>>, <<Sl(TStr), {Nil, Ls(<<>>), Ls(<<Str(<<>>)>>)}>>, <<Map(IntTy(64, TRUE)), {Nil, Ms(<<>>), Ms(<<<<a, IntN(0)>>>>)}>>, <<Time, {ZeroTime, <<"t", 1, 2, 0>>}>>,
               <<<<"map", IntTy(64, TRUE), "int">>, {Ms(<<>>), Ms(<<<<B("-1"), IntN(0)>>, <<B("10"), IntN(1)>>, <<B("2"), IntN(3)>>>>)}>>, <<<<"map", TStr, "bool">>, {Nil, Ms(<<<<B("false"), Str(<<>>)>>, <<B("true"), Str(<<>>)>>>>)}>>,
               <<St(<<Fld(B("In"), TStr)>>), {Sv(<<Str(<<>>)>>), Sv(<<Str(B("y"))>>)}>>, <<Ptr(IntTy(64, TRUE)), {Nil, P(IntN(0))}>>,
               <<<<"docv", "dict">>, {<<"j", EmptyObj>>, <<"j", Obj(<<<<a, Null>>>>)>>}>>, <<<<"docp", "array">>, {Nil, <<"j", EmptyArr>>}>>}
NameCase(g, j, n, t, v) == [k |-> "marshal", T |-> St(<<[Fld(g, t) EXCEPT !.json = j, !.name = n]>>), v |-> Sv(<<v>>)]

\* --- replacements ----------------------------------------------------------------
FNames == <<B("f"), B("g"), B("h")>>
DepTypes(ds) == St([i \in 1..3 |-> [Tag(Fld(<<Upper(FNames[i][1])>>, TStr), FNames[i], <<>>) EXCEPT !.dep = ds[i]]])
DepCases == LET D == {<<>>, B("f"), B("g"), B("h"), B("q")}
                Ts == {DepTypes(<<x, y, z>>) : x, y, z \in D}
                Vs == {Sv(<<Str(B("1")), Str(B("2")), Str(B("3"))>>), Sv(<<Str(B("1")), Str(<<>>), Str(B("3"))>>), Sv(<<Str(<<>>), Str(B("2")), Str(<<>>)>>)}
                Ds == {Obj(<<<<n, Str(B("n"))>>>>) : n \in {B("f"), B("g"), B("h"), B("F")}} \cup {Obj(<<<<B("f"), Str(B("n"))>>, <<B("h"), Str(B("m"))>>>>), Obj(<<<<B("g"), Null>>>>)}
            IN {[k |-> "marshal", T |-> t, v |-> v] : t \in Ts, v \in Vs} \cup {[k |-> "unmarshal", T |-> t, old |-> Sv(<<Str(B("1")), Str(B("2")), Str(B("3"))>>), d |-> d] : t \in Ts, d \in Ds}
\* the same through an embedded struct whose tag names the replacements
EmbDepCases == LET D == {<<>>, B("f"), B("g"), B("h")}
                   pair(n, x) == IF x = <<>> THEN <<>> ELSE <<<<n, x>>>>
                   T3(x, y, how) == St(<<[Emb(B("E"), how, <<Tag(Fld(B("F"), TStr), B("f"), <<>>), Tag(Fld(B("G"), TStr), B("g"), <<>>)>>) EXCEPT !.edep = pair(B("f"), x) \o pair(B("g"), y)], Tag(Fld(B("H"), TStr), B("h"), <<>>)>>)
                   e == Sv(<<Str(B("1")), Str(B("2"))>>)
                   val(how) == Sv(<<IF how = "v" THEN e ELSE P(e), Str(B("3"))>>)
               IN {[k |-> "marshal", T |-> T3(x, y, how), v |-> val(how)] : x, y \in D, how \in {"v", "p"}}
                  \cup {[k |-> "unmarshal", T |-> T3(x, y, how), old |-> val(how), d |-> Obj(<<<<n, Str(B("n"))>>>>)] : x, y \in D, how \in {"v", "p"}, n \in {B("f"), B("g"), B("h")}}

\* --- conversions -------------------------------------------------------------------
I64 == IntTy(64, TRUE)
Targets == {<<TBool, Bool(TRUE)>>, <<TStr, Str(B("old"))>>, <<TTri, Str(B("true"))>>, <<Time, <<"t", 5, 6, 7>>>>, <<<<"any">>, <<"any", TStr, Str(B("old"))>>>>, <<<<"doc">>, <<"j", IntN(1)>>>>,
            <<IntTy(8, TRUE), IntN(9)>>, <<IntTy(16, FALSE), IntN(9)>>, <<I64, IntN(9)>>, <<IntTy(64, FALSE), IntN(9)>>, <<<<"float", 32>>, Flt(FALSE, "25", 1)>>, <<F64, Flt(FALSE, "25", 1)>>,
            <<Ptr(I64), P(IntN(4))>>, <<Ptr(TStr), Nil>>, <<Ptr(Ptr(I64)), P(Nil)>>, <<Ptr(Time), Nil>>, <<Sl(I64), Ls(<<IntN(8), IntN(9)>>)>>, <<Sl(TStr), Nil>>, <<<<"array", 1, I64>>, Ls(<<IntN(6)>>)>>, <<<<"array", 0, TStr>>, Ls(<<>>)>>,
            <<Map(I64), Ms(<<<<a, IntN(1)>>, <<b, IntN(2)>>>>)>>, <<Map(Sl(I64)), Nil>>, <<<<"map", I64, "named">>, Nil>>, <<<<"map", I64, "int">>, Nil>>, <<<<"map", TStr, "any">>, Ms(<<<<B("1"), Str(B("x"))>>>>)>>, <<St(<<Fld(B("A"), I64), Fld(B("B"), TStr)>>), Sv(<<IntN(1), Str(B("z"))>>)>>, <<Ptr(St(<<Fld(B("A"), I64)>>)), Nil>>,
            <<Ptr(Sl(TStr)), Nil>>, <<Ptr(Map(TStr)), Nil>>, <<Sl(Sl(I64)), Nil>>, <<Sl(Ptr(I64)), Ls(<<P(IntN(5))>>)>>}
           \cup {<<<<"docp", k>>, Nil>> : k \in {"dict", "array", "string", "int", "float", "bool"}} \cup {<<<<"docv", k>>, <<"j", EmptyDoc(k)>>>> : k \in {"dict", "array", "string", "int", "float", "bool"}}
Sources == {Null, Bool(TRUE), Bool(FALSE), IntN(0), IntN(1), IntN(-1), IntN(127), IntN(128), IntN(65536), IntT(B("9223372036854775807")), Flt(FALSE, "", 0), Flt(FALSE, "15", 1), Flt(TRUE, "15", 1), Flt(FALSE, "5", 0), Flt(FALSE, "3", 3), Flt(FALSE, "1", 39), Flt(FALSE, "1", 20),
            Str(<<>>), Str(B("1")), Str(B("-1")), Str(B("1.5")), Str(B("1,234")), Str(B("1.234,5")), Str(B("true")), Str(B("Off")), Str(B("x")), Str(B("2020-02-03T04:05:06Z")), Str(B("2020-02-03")), Str(B("{}")), Str(B("9223372036854775808")),
            EmptyArr, Arr(<<IntN(3)>>), Arr(<<IntN(3), Str(B("4"))>>), Arr(<<Null>>), Arr(<<Arr(<<IntN(1)>>)>>), Arr(<<Str(B("x"))>>), Arr(<<EmptyObj>>),
            EmptyObj, Obj(<<<<a, IntN(2)>>>>), Obj(<<<<a, Str(B("x"))>>, <<b, Null>>>>), Obj(<<<<a, Arr(<<IntN(2)>>)>>>>), Obj(<<<<B("A"), Null>>, <<b, Bool(TRUE)>>>>)}

\* --- overlays ------------------------------------------------------------------------
OverT == St(<<Tag(Fld(B("A"), I64), <<>>, <<>>), [Fld(B("UserID"), TStr) EXCEPT !.name = B("uid")], Tag(Fld(B("Sub"), St(<<Fld(B("A"), I64), Fld(B("Ok"), TBool)>>)), B("sub"), <<>>),
              Emb(B("Base"), "p", <<Fld(B("Zone"), Ptr(I64))>>), Fld(B("Ls"), Sl(I64)), Fld(B("Mp"), Map(TStr)), Tag(Fld(B("No"), TStr), B("-"), <<>>)>>)
OverV == Sv(<<IntN(1), Str(B("u")), Sv(<<IntN(2), Bool(TRUE)>>), Nil, Ls(<<IntN(1), IntN(2)>>), Ms(<<<<a, Str(B("m"))>>>>), Str(B("no"))>>)
Members == {<<B("a"), IntN(5)>>, <<B("A"), Str(B("bad"))>>, <<B("uid"), Str(B("v"))>>, <<B("user_id"), Null>>, <<B("UserID"), IntN(3)>>, <<B("sub"), Obj(<<<<a, IntN(9)>>>>)>>, <<B("sub"), Obj(<<<<a, EmptyArr>>, <<B("ok"), Bool(FALSE)>>>>)>>, <<B("Sub"), Null>>,
            <<B("zone"), IntN(7)>>, <<B("zone"), Str(B("z"))>>, <<B("ls"), Arr(<<Null, IntN(8)>>)>>, <<B("ls"), Str(B("6"))>>, <<B("mp"), Obj(<<<<b, IntN(1)>>>>)>>, <<B("mp"), Obj(<<<<b, Str(B("x"))>>, <<B("c"), EmptyArr>>>>)>>, <<B("no"), Str(B("w"))>>, <<B("No"), IntN(2)>>, <<B("other"), EmptyObj>>}
Objects == {Obj(<<m>>) : m \in Members} \cup {Obj(Put(<<m>>, n[1], n[2])) : m, n \in Members} \cup {EmptyObj}
MapT == Map(Map(I64))
MapV == Ms(<<<<a, Ms(<<<<a, IntN(1)>>>>)>>, <<b, Nil>>>>)
MapObjs == {Obj(<<<<k, x>>>>) : k \in {a, b, B("c")}, x \in {Null, Obj(<<<<b, IntN(2)>>>>), Obj(<<<<a, Str(B("x"))>>>>), IntN(1)}}

\* --- types with methods of their own -----------------------------------------------------
Payloads(sh) == IF sh = "num" THEN {IntN(0)[2], IntN(-3)[2]} ELSE IF sh = "raw" THEN {<<>>, B("[1]"), B("{"), B("!")} ELSE {<<>>, B("x"), B("!r")}
Cust(sh, rc) == <<<<"cust", sh, rc>>, {<<"c", s>> : s \in Payloads(sh)}>>
CShapes == {"str", "raw", "num", "obj", "map", "slc"}
CHows == IF Depth > 1 THEN {"v", "p", "m", "u"} ELSE {"v", "p"}
CTypes == UNION {{Cust(sh, rc)} \cup Around(Cust(sh, rc)) : sh \in CShapes, rc \in CHows}
          \cup UNION {Around(tv) : tv \in {x \in UNION {Around(Cust(sh, "v")) : sh \in IF Depth > 1 THEN CShapes ELSE {"obj"}} : x[1][1] \in {"ptr", "slice", "map"}}}
\* the type with every custom type able to write itself
RECURSIVE Writing(_)
Writing(T) == CASE T[1] = "cust" -> <<"cust", T[2], "v">>
                [] T[1] \in {"ptr", "slice", "map"} -> <<T[1], Writing(T[2])>>
                [] T[1] = "array" -> <<"array", T[2], Writing(T[3])>>
                [] T[1] = "struct" -> <<"struct", [i \in 1..Len(T[2]) |-> [T[2][i] EXCEPT !.t = Writing(@)]]>>
                [] OTHER -> T
CustomCase(tv) == LET Docs == {Concrete(Marshal(Writing(tv[1]), w, TRUE)) : w \in {w \in tv[2] : ~HasRefusal(Marshal(Writing(tv[1]), w, TRUE))}}
                  IN {[k |-> "try", T |-> tv[1], v |-> v] : v \in tv[2]} \cup {[k |-> "unmarshal", T |-> tv[1], old |-> o, d |-> x] : o \in {v \in tv[2] : TRUE} \cup {Zero(tv[1])}, x \in Docs}
RECURSIVE HasHow(_, _)
HasHow(T, hows) == CASE T[1] = "cust" -> T[2] = "raw" \/ T[3] \in hows
                     [] T[1] \in {"ptr", "slice", "map"} -> HasHow(T[2], hows)
                     [] T[1] = "array" -> HasHow(T[3], hows)
                     [] T[1] = "struct" -> \E i \in 1..Len(T[2]) : HasHow(T[2][i].t, hows)
                     [] OTHER -> FALSE
\* a custom value is never left out, so both forms refuse alike; what a method wrote is what it reads
CustomLaw ==
    IF case.k = "try" THEN HasRefusal(Marshal(case.T, case.v, TRUE)) = HasRefusal(Marshal(case.T, case.v, FALSE))
    ELSE LET r == Unm(case.T, case.old, case.d) IN
         ~HasHow(case.T, {"m"}) => /\ r[1] = "ok"
                                      /\ case.old = Zero(case.T) => Concrete(Marshal(Writing(case.T), r[2], TRUE)) = case.d

Ign(go, t) == Tag(Fld(B(go), t), B("-"), <<>>)
Counter == <<Ign("N", <<"int", 64, TRUE>>), Ign("At", <<"fresh">>)>>
Named(go, n, t) == Tag(Fld(B(go), t), B(n), <<>>)
Hooked(fs) == <<"struct", fs, "hook">>
HI64 == <<"int", 64, TRUE>>
Hook0 == Hooked(Counter \o <<Named("V", "v", HI64), Named("S", "s", TStr)>>)
HookE == Hooked(<<Named("V", "v", HI64), Named("Q", "q", Ptr(Hook0))>> \o Counter)
EmbT(go, how, T) == [Fld(B(go), T) EXCEPT !.emb = how]
HookM == Hooked(<<EmbT("HookE", "v", HookE), Named("W", "w", HI64)>> \o Counter)
HookEmbP == Hooked(<<EmbT("HookE", "p", HookE), Named("W", "w", HI64)>> \o Counter)
HookTwo == Hooked(<<Named("Z", "z", HI64), EmbT("HookM", "v", HookM)>> \o Counter)
HookIn == Hooked(<<Named("X", "x", Hook0), Named("P", "p", Ptr(Hook0)), Named("L", "l", Sl(Hook0)), Named("M", "m", Map(Hook0))>> \o Counter)
HookTypes == {HookM, HookEmbP, HookTwo, HookIn, HookE, Sl(HookM), Map(Ptr(HookEmbP)), St(<<Fld(B("A"), HookEmbP), Fld(B("B"), Ptr(HookIn))>>)}
HObj(v) == Obj(<<<<B("v"), v>>>>)
HookMembers == {<<B("v"), IntN(1)>>, <<B("v"), Str(B("bad"))>>, <<B("w"), IntN(2)>>, <<B("z"), Null>>, <<B("q"), HObj(IntN(5))>>, <<B("q"), HObj(EmptyArr)>>, <<B("q"), Null>>,
                <<B("x"), HObj(IntN(6))>>, <<B("x"), IntN(1)>>, <<B("p"), EmptyObj>>, <<B("l"), Arr(<<HObj(IntN(1)), Null, EmptyObj>>)>>, <<B("m"), Obj(<<<<B("k"), HObj(IntN(3))>>>>)>>, <<B("none"), IntN(0)>>}
HookObjs == {EmptyObj} \cup {Obj(<<m>>) : m \in HookMembers} \cup {Obj(Put(<<m>>, n[1], n[2])) : m, n \in HookMembers}
HookDocs(T) == CASE T[1] = "struct" /\ Len(T) = 3 -> HookObjs
                 [] T[1] = "slice" -> {Arr(<<x>>) : x \in HookObjs} \cup {Arr(<<Obj(<<m>>), EmptyObj>>) : m \in HookMembers}
                 [] T[1] = "map" -> {Obj(<<<<n, x>>>>) : n \in {B("k"), B("j")}, x \in HookObjs}
                 [] OTHER -> {Obj(<<<<n, x>>>>) : n \in {B("a"), B("b")}, x \in HookObjs} \cup {Obj(<<<<B("a"), Obj(<<m>>)>>, <<B("b"), Obj(<<n>>)>>>>) : m, n \in HookMembers}
FieldVal(T, v, go) == LET i == CHOOSE i \in 1..Len(T[2]) : T[2][i].go = B(go) IN v[2][i]
NumOf(v) == CHOOSE n \in 0..60 : IntN(n) = v
\* an object for a struct with a hook runs it once, whatever the members; and those of the structs embedded in it
RECURSIVE RanOnce(_, _, _)
RanOnce(T, v, w) ==
    /\ NumOf(FieldVal(T, w, "N")) = NumOf(FieldVal(T, v, "N")) + 1
    /\ FieldVal(T, w, "At") = Bool(TRUE)
    /\ \A i \in 1..Len(T[2]) :
         LET f == T[2][i] IN
         /\ f.emb = "v" => RanOnce(f.t, v[2][i], w[2][i])
         /\ (f.emb = "p" /\ w[2][i] # Nil) => RanOnce(f.t, IF v[2][i] = Nil THEN Zero(f.t) ELSE v[2][i][2], w[2][i][2])
HookLaw == LET r == Unm(case.T, case.old, case.d) IN
           /\ Len(case.T) = 3 => RanOnce(case.T, case.old, r[2])
           /\ case.d = EmptyObj => r[1] = "ok"

RECURSIVE NoWild(_)
NoWild(v) == CASE v[1] = "?" -> FALSE
               [] v[1] \in {"S", "R"} -> FALSE
               [] v[1] = "p" -> NoWild(v[2])
               [] v[1] \in {"l", "st"} -> \A i \in 1..Len(v[2]) : NoWild(v[2][i])
               [] v[1] = "m" -> \A i \in 1..Len(v[2]) : NoWild(v[2][i][2])
               [] v[1] = "any" -> NoWild(v[3])
               [] OTHER -> TRUE
ConvertLaw ==
    LET r == Unm(case.T, case.old, case.d) IN
    /\ r[1] \in {"ok", "err", "any"}
    /\ case.d = Null => r = ok(Zero(case.T))
    /\ (r[1] = "ok" /\ NoWild(r[2]) /\ case.d # Str(<<>>)) => LET again == Unm(case.T, r[2], case.d) IN again[1] \in {"ok", "any"}
\* --- registered types ---------------------------------------------------------------------
Iface(n, al) == <<"iface", n, al>>
NewOf(c, v, marks) == <<"new", c, v, marks>>
RegV == Iface("V", NewOf(St(<<Fld(B("X"), I64), Fld(B("Y"), Sl(I64))>>), Sv(<<IntN(0), Nil>>), <<>>))
RegC == Iface("C", NewOf(Ptr(St(<<Named("S", "s", TStr), Named("V", "v", RegV), Fld(B("T"), I64)>>)), P(Sv(<<Str(<<>>), Nil, IntN(0)>>)), <<>>))
RegB == Iface("B", NewOf(Map(RegC), Ms(<<>>), <<>>))
RegN == Iface("N", <<"none">>)
RegD == Iface("D", <<"doc">>)
RegA == Iface("A", NewOf(Ptr(St(<<Fld(B("N"), I64), Named("L", "l", Sl(TStr)), Fld(B("P"), Ptr(I64)), Named("In", "in", RegB), Named("No", "no", RegN),
                                  Named("Ls", "ls", Sl(RegC)), Named("D", "d", <<"doc">>), Named("G", "g", RegD), Ign("Mark", TStr)>>)),
                         P(Sv(<<IntN(7), Ls(<<Str(B("d"))>>), Nil, Nil, Nil, Nil, Nil, Nil, Str(B("m"))>>)), <<B("1"), B("2")>>))
RegW == Iface("W", <<"odd">>)
RegX == Iface("X", <<"odd">>)
RegT == Iface("T", NewOf(Ptr(St(<<Named("T", "t", TStr), Named("U", "u", TBool)>>)), Nil, <<>>))
RegL == Iface("L", NewOf(Sl(I64), Nil, <<>>))
RegS == Iface("S", NewOf(Ptr(TStr), P(Str(<<>>)), <<>>))
RegQ == Iface("Q", NewOf(Ptr(St(<<Fld(B("A"), I64), Named("C", "c", RegC)>>)), P(Sv(<<IntN(3), Nil>>)), <<>>))
Insides == {RegV, RegC, RegB, RegN, RegD, RegA, RegW, RegX, RegT, RegL, RegS}
Directs == Insides \cup {RegQ, <<"doc">>} \cup {<<"docp", k>> : k \in {"dict", "array", "string", "int", "float", "bool"}}
Two2(ms) == {Obj(<<m>>) : m \in ms} \cup {Obj(Put(<<m>>, n[1], n[2])) : m, n \in ms}
VDocs == Two2({<<B("x"), IntN(4)>>, <<B("x"), EmptyArr>>, <<B("y"), Arr(<<IntN(1)>>)>>})
CDocs == Two2({<<B("s"), Str(B("q"))>>, <<B("v"), Obj(<<<<B("x"), IntN(4)>>>>)>>, <<B("v"), IntN(1)>>, <<B("v"), Null>>, <<B("t"), Str(B("5"))>>})
SomeC == {EmptyObj, Null, Obj(<<<<B("s"), Str(B("q"))>>>>), Obj(<<<<B("v"), Obj(<<<<B("x"), IntN(4)>>>>)>>>>), Obj(<<<<B("t"), EmptyArr>>>>), IntN(1)}
BDocs == Two2({<<k, x>> : k \in {a, b}, x \in SomeC})
ADocs == Two2({<<B("n"), IntN(2)>>, <<B("n"), Null>>, <<B("l"), EmptyArr>>, <<B("l"), Arr(<<Str(B("z"))>>)>>, <<B("p"), IntN(0)>>, <<B("in"), Obj(<<<<a, Obj(<<<<B("s"), Str(B("q"))>>>>)>>>>)>>, <<B("in"), EmptyArr>>,
                <<B("no"), EmptyObj>>, <<B("no"), Null>>, <<B("ls"), Arr(<<Null, Obj(<<<<B("t"), IntN(9)>>>>)>>)>>, <<B("d"), Arr(<<Null>>)>>, <<B("g"), Obj(<<<<a, EmptyArr>>>>)>>, <<B("g"), Null>>, <<B("mark"), Str(B("z"))>>})
IDocs(T) == {Null, Bool(TRUE), IntN(3), Str(<<>>), Str(B("w")), Flt(FALSE, "15", 1), EmptyArr, Arr(<<IntN(3)>>), EmptyObj}
            \cup CASE T = RegV -> VDocs [] T = RegC -> CDocs [] T = RegB -> BDocs [] T = RegA -> ADocs
                   [] T = RegT -> Two2({<<B("t"), Str(B("x"))>>, <<B("u"), Bool(TRUE)>>, <<B("u"), EmptyArr>>})
                   [] T = RegQ -> {Obj(<<<<B("a"), IntN(1)>>, <<B("c"), x>>>>) : x \in SomeC}
                   [] OTHER -> {Obj(<<<<a, IntN(1)>>, <<b, Null>>>>), Arr(<<Null, Obj(<<<<a, Null>>>>)>>)}
OldOf(T) == IF T[1] = "iface" /\ T[3][1] = "new" /\ T[3][3] # Nil THEN <<"any", T[3][2], T[3][3]>> ELSE Nil
IfaceCases ==
    UNION {{[k |-> "deser", T |-> T, text |-> Render(x)] : x \in IDocs(T)} \cup {[k |-> "deser", T |-> T, text |-> s] : s \in {<<>>, B("{"), B("{}}"), B("[1"), B("{a:1,}"), B(" [] ")}} : T \in Directs}
    \cup UNION {{[k |-> "unmarshal", T |-> T, old |-> o, d |-> x] : x \in IDocs(T), o \in {Nil, OldOf(T)}} : T \in Insides}
    \cup UNION {{[k |-> "unmarshal", T |-> Sl(T), old |-> Nil, d |-> Arr(<<x, y>>)] : x \in IDocs(T), y \in {Null, EmptyObj}} : T \in Insides}
    \cup UNION {{[k |-> "unmarshal", T |-> Map(T), old |-> Ms(<<<<b, OldOf(T)>>>>), d |-> Obj(<<<<a, x>>>>)] : x \in IDocs(T)} : T \in Insides}
    \cup UNION {{[k |-> "unmarshal", T |-> St(<<Fld(B("A"), T), Fld(B("B"), T)>>), old |-> Sv(<<OldOf(T), OldOf(T)>>), d |-> Obj(<<<<a, x>>>>)] : x \in IDocs(T)} : T \in Insides}
\* what is rebuilt is of the registered type, and written again and rebuilt is the same
IfaceLaw ==
    IF case.k = "deser"
    THEN LET r == Deserialize(case.T, case.text) IN
         /\ (case.T = RegN \/ Run(case.text).m # "d") => r = bad
         /\ (case.T[1] = "iface" /\ case.T[3][1] = "new" /\ r[1] = "ok") => r[2][2] = case.T[3][2]
         /\ (case.T[1] = "iface" /\ case.T[3][1] = "new" /\ r[1] = "ok" /\ NoWild(r[2]) /\ Marshal(case.T, r[2], TRUE) # Null /\ r[2][3] # Nil) =>
               LET d == Concrete(Marshal(case.T, r[2], TRUE))
                   again == Deserialize(case.T, Render(d))
               IN again[1] = "ok" /\ Concrete(Marshal(case.T, again[2], TRUE)) = d
    ELSE /\ ConvertLaw
         /\ (case.T[1] = "iface" /\ case.T[3][1] = "new" /\ HoldsMembers(case.T[3][2]) /\ IsO(case.d)) =>
               \* inside another value as directly, but for the transformers
               LET inside == Unm(case.T, case.old, case.d)
                   direct == Deserialize(<<case.T[1], case.T[2], <<"new", case.T[3][2], case.T[3][3], <<>>>>>>, Render(case.d))
               IN inside = direct

\* --- the machine -------------------------------------------------------------------
Init == /\ depth = 0
        /\ CASE Profile = "back" -> \E tv \in Shapes(Depth) : \E v \in tv[2] : case = [k |-> "back", T |-> tv[1], v |-> v]
             [] Profile = "names" -> \E g \in IF Depth > 1 THEN GoNames ELSE {B("UserID")} : \E j \in JsonTags, n \in NameTags, tv \in FieldTypes : \E v \in tv[2] : case = NameCase(g, j, n, tv[1], v)
             [] Profile = "deps" -> case \in DepCases \cup EmbDepCases
             [] Profile = "convert" -> \E t \in Targets : \E o \in {t[2], Zero(t[1])} : \E x \in Sources : case = [k |-> "unmarshal", T |-> t[1], old |-> o, d |-> x]
             [] Profile = "overlay" -> \/ \E x \in Objects : case = [k |-> "unmarshal", T |-> OverT, old |-> OverV, d |-> x]
                                       \/ \E x \in Objects : case = [k |-> "unmarshal", T |-> OverT, old |-> Zero(OverT), d |-> x]
                                       \/ \E x \in MapObjs : \E o \in {MapV, Nil} : case = [k |-> "unmarshal", T |-> MapT, old |-> o, d |-> x]
             [] Profile = "custom" -> \E tv \in CTypes : case \in CustomCase(tv)
             [] Profile = "iface" -> case \in IfaceCases
             [] Profile = "hooks" -> \E t \in HookTypes : \E x \in HookDocs(t) : case = [k |-> "unmarshal", T |-> t, old |-> Zero(t), d |-> x]
\* a further object is stored on what the last one left
Next == /\ (Profile \in {"overlay", "hooks"} /\ depth < Depth - 1) = TRUE
        /\ LET r == Unm(case.T, case.old, case.d) IN
           /\ NoWild(r[2]) = TRUE
           /\ \E x \in IF Profile = "hooks" THEN {x \in HookDocs(case.T) : ~IsO(x) \/ Len(x[2]) = 1} ELSE IF case.T = OverT THEN {Obj(<<m>>) : m \in Members} ELSE MapObjs : case' = [case EXCEPT !.old = r[2], !.d = x]
        /\ depth' = depth + 1
Spec == Init /\ [][Next]_<<case, depth>>

\* --- laws ----------------------------------------------------------------------------
BackLaw == \A all \in BOOLEAN :
    LET d == Concrete(Marshal(case.T, case.v, all))
        r == Unm(case.T, Zero(case.T), d)
    IN r[1] = "ok" /\ DocMatch(Marshal(case.T, r[2], TRUE), Concrete(Marshal(case.T, r[2], TRUE)))
       /\ (all => Concrete(Marshal(case.T, r[2], all)) = d)
       /\ Concrete(Marshal(case.T, Unm(case.T, Zero(case.T), Concrete(Marshal(case.T, r[2], all)))[2], all)) = Concrete(Marshal(case.T, r[2], all))
       \* a value updated from itself is as it was
       /\ LET self == Unm(case.T, case.v, d) IN self[1] = "ok" /\ Concrete(Marshal(case.T, self[2], all)) = d
NameLaw ==
    LET f == case.T[2][1]
        lean == Marshal(case.T, case.v, FALSE)
        full == Marshal(case.T, case.v, TRUE)
    IN IF IsIgnored(f) THEN lean = EmptyObj /\ full = EmptyObj
       ELSE /\ KeysOf(full[2]) = <<NameOf(f)>>                                     \* nothing is left out of the full form
            /\ lean[2] = <<>> \/ KeysOf(lean[2]) = <<NameOf(f)>>
            /\ (lean[2] # <<>> /\ f.t[1] \notin {"slice", "map", "struct"}) => lean = full
            /\ (NoWild(case.v) /\ case.v[2][1] = Nil) => lean[2] = <<>>
            /\ lean[2] = <<>> => (case.v[2][1] = Nil \/ case.v[2][1] = Zero(f.t) \/ (Len(case.v[2][1]) > 1 /\ case.v[2][1][2] = <<>>) \/ f.t[1] \in {"struct"} \/ InfoOf(f).oe)
\* a name reaches its end, or loops; then it is left out
DepLaw ==
    LET fs == Flat(case.T[2])
        deps == FoldLeft(LAMBDA acc, x : IF x.f.dep = <<>> THEN acc ELSE Append(acc, <<NameOf(x.f), x.f.dep>>), <<>>, fs)
    IN case.k = "marshal" =>
       LET d == Marshal(case.T, case.v, TRUE) IN
       \A i \in 1..Len(fs) :
          LET n == NameOf(fs[i].f) IN
          IF fs[i].f.dep = <<>> THEN Has(d[2], n)
          ELSE LET e == ChainEnd(deps, fs[i].f.dep, Len(deps)) IN
               IF e = <<>> \/ ~Has(d[2], e[1]) THEN ~Has(d[2], n) ELSE Has(d[2], n) /\ At(d[2], n) = At(d[2], e[1])
DepBack == (case.k = "unmarshal" /\ Len(case.d[2]) = 1 /\ case.d[2][1][2] # Null) =>
    LET fs == Flat(case.T[2])
        r == Unm(case.T, case.old, case.d)[2]
        n == case.d[2][1][1]
    IN \A i \in 1..Len(fs) :
        LET hit(m) == \E j \in 1..Len(fs) : NameOf(fs[j].f) = m /\ fs[j].f.dep = NameOf(fs[i].f)
            now == GetPath(case.T, r, fs[i].path)
        IN (NameOf(fs[i].f) = n \/ hit(n)) => now = case.d[2][1][2]
\* what no member matches stays
FrameLaw ==
    LET r == Unm(case.T, case.old, case.d) IN
    IF case.T[1] = "struct"
    THEN LET fs == Flat(case.T[2]) IN
         \A i \in 1..Len(fs) :
            (\A m \in Range(case.d[2]) : i \notin Range(Matches(fs, m[1]))) => GetPath(case.T, r[2], fs[i].path) = GetPath(case.T, case.old, fs[i].path)
    ELSE r[1] = "ok" =>
         /\ \A p \in Range(case.d[2]) : Has(r[2][2], p[1])
         /\ case.old # Nil => \A p \in Range(case.old[2]) : Has(case.d[2], p[1]) \/ (Has(r[2][2], p[1]) /\ At(r[2][2], p[1]) = p[2])
Laws == CASE Profile = "back" -> BackLaw [] Profile = "names" -> NameLaw [] Profile = "deps" -> DepLaw /\ DepBack
          [] Profile = "convert" -> ConvertLaw [] Profile = "overlay" -> FrameLaw
          [] Profile = "custom" -> CustomLaw [] Profile = "hooks" -> HookLaw [] Profile = "iface" -> IfaceLaw
Out == ~Emit \/ PrintT("CASE " \o ToJson(case))
===============================================================================
