------------------------------- MODULE JStruct -------------------------------
(***************************************************************************)
(* Go values and documents: marshalling and unmarshalling.                 *)
(*                                                                         *)
(* A type is one of                                                        *)
(*   <<"bool">> <<"string">> <<"tri">> (three-valued flag) <<"time">>      *)
(*   <<"any">> (empty interface) <<"doc">> (any document)                  *)
(*   <<"int", bits, signed>> <<"float", bits>>                             *)
(*   <<"ptr", T>> <<"slice", T>> <<"array", n, T>> <<"map", T>>            *)
(*                     a third part says of what type the keys of a map    *)
(*                     are, when not string: "named" (a type of strings)   *)
(*                     "int" "uint8" "bool" "any"; they are written as     *)
(*                     their texts                                         *)
(*   <<"docp", kind>> <<"docv", kind>>  pointer to, value of one document  *)
(*                     kind: "dict" "array" "string" "int" "float" "bool"  *)
(*   <<"iface", name, alloc>>  an interface with methods; alloc says what  *)
(*                     is registered for it: <<"none">> nothing, <<"doc">> *)
(*                     the document itself, <<"odd">> something that does  *)
(*                     not implement it, <<"new", C, v, marks>> a new v of *)
(*                     type C, then (when rebuilt directly) its            *)
(*                     transformers, each noting its mark                  *)
(*   <<"cust", shape, how>>  a type with JSON methods of its own, see Custom *)
(*   <<"struct", fields>>, and <<"struct", fields, "hook">> when it has an *)
(*                     after-unmarshal hook; a field is a record           *)
(*     go      its Go name                                                 *)
(*     json    <<>>, or <<name, option words>> of its json tag             *)
(*     name    its name tag, <<>> if none                                  *)
(*     emb     "" named, "v" embedded struct, "p" embedded struct pointer  *)
(*     dep     the field that replaced it, <<>> if none                    *)
(*     edep    of an embedded struct: <<old, new>> pairs, for its fields   *)
(*     t       its type                                                    *)
(* A value is one of                                                       *)
(*   <<"b", TRUE>> <<"i", text>> <<"f", neg, digits, exp>> <<"s", bytes>>  *)
(*   (strings and three-valued flags), <<"t", day, second, nano>> (UTC,    *)
(*   from 1970) <<"nil">> <<"p", v>> <<"l", vs>> (slices and arrays)       *)
(*   <<"m", members>> <<"st", vs>> <<"any", T, v>> <<"j", document>>       *)
(*   <<"c", bytes>>  what a value of a custom type holds                   *)
(* and, in an expected value, <<"?">> where the specification says nothing.*)
(* An expected document may hold <<"T", day, second, nano>>, a string that *)
(* denotes that time, and <<"S", document>>, one that is the document's    *)
(* text.                                                                   *)
(***************************************************************************)
EXTENDS JRender, JParse, JTime
Rfc == INSTANCE JRfc

Wild == <<"?">>
Nil == <<"nil">>
ZeroTime == <<"t", -719162, 0, 0>>
Time == <<"time">>
EmptyDoc(k) == CASE k = "dict" -> EmptyObj [] k = "array" -> EmptyArr [] k = "string" -> Str(<<>>)
                 [] k = "int" -> IntN(0) [] k = "float" -> <<"f", FALSE, <<>>, 0>> [] k = "bool" -> Bool(FALSE)

RECURSIVE Zero(_)
Zero(T) ==
    CASE T[1] = "bool" -> Bool(FALSE)
      [] T[1] = "int" -> IntN(0)
      [] T[1] = "float" -> <<"f", FALSE, <<>>, 0>>
      [] T[1] \in {"string", "tri"} -> Str(<<>>)
      [] T[1] = "time" -> ZeroTime
      [] T[1] = "array" -> <<"l", [i \in 1..T[2] |-> Zero(T[3])]>>
      [] T[1] = "struct" -> <<"st", [i \in 1..Len(T[2]) |-> IF T[2][i].emb = "p" THEN Nil ELSE Zero(T[2][i].t)]>>
      [] T[1] = "docv" -> <<"j", EmptyDoc(T[2])>>
      [] T[1] = "cust" -> <<"c", IF T[2] = "num" THEN <<48>> ELSE <<>>>>
      [] T[1] = "fresh" -> Bool(FALSE)
      [] OTHER -> Nil

(* --- custom types --------------------------------------------------------- *)
(* <<"cust", shape, how>>: shape is what it is made of and how it is written; *)
(* how is "v" (marshals by value or pointer), "p" (only by pointer), "m" (does *)
(* not unmarshal), "u" (does not marshal).  What starts with ! is refused.    *)
Under(T) ==      \* the type it is made of
    CASE T[2] \in {"str", "raw"} -> <<"string">>
      [] T[2] = "num" -> <<"int", 64, TRUE>>
      [] T[2] = "map" -> <<"map", <<"string">>>>
      [] T[2] = "slc" -> <<"slice", <<"string">>>>
      [] T[2] = "obj" -> <<"struct", <<[go |-> B("S"), json |-> <<B("s"), <<>>>>, name |-> <<>>, emb |-> "", dep |-> <<>>, edep |-> <<>>, t |-> <<"string">>]>>>>
UnderVal(T, v) ==
    CASE T[2] \in {"str", "raw"} -> Str(v[2])
      [] T[2] = "num" -> IntT(v[2])
      [] T[2] = "map" -> IF v[2] = <<>> THEN Nil ELSE <<"m", <<<<B("p"), Str(v[2])>>>>>>
      [] T[2] = "slc" -> IF v[2] = <<>> THEN Nil ELSE <<"l", <<Str(v[2])>>>>
      [] T[2] = "obj" -> <<"st", <<Str(v[2])>>>>
\* back: the value of the custom type made of it, wild if that cannot be written so
OfUnder(T, v) ==
    LET s == CASE T[2] \in {"str", "raw", "num"} -> v
               [] T[2] = "map" -> IF v = Nil \/ (v[1] = "m" /\ v[2] = <<>>) THEN Str(<<>>) ELSE IF v[1] = "m" /\ Len(v[2]) = 1 /\ v[2][1][1] = B("p") THEN v[2][1][2] ELSE Wild
               [] T[2] = "slc" -> IF v = Nil \/ (v[1] = "l" /\ v[2] = <<>>) THEN Str(<<>>) ELSE IF v[1] = "l" /\ Len(v[2]) = 1 THEN v[2][1] ELSE Wild
               [] T[2] = "obj" -> IF v[1] = "st" THEN v[2][1] ELSE Wild
    IN IF s[1] \in {"s", "i"} THEN <<"c", s[2]>> ELSE IF s[1] = "S" THEN <<"R", s[2]>> ELSE Wild
Refused(s) == s # <<>> /\ s[1] = 33
Refusal == <<"!">>      \* in place of a document: marshalling cannot succeed
Writes(T, ptr) == T[3] \in {"v", "m"} \/ (T[3] = "p" /\ ptr)
Angle(s) == Str(<<60>> \o s \o <<62>>)
CustomDoc(T, v) ==
    CASE v[1] = "R" -> v[2]
      [] T[2] \in {"str", "map", "slc"} -> IF Refused(v[2]) THEN Refusal ELSE Angle(v[2])
      [] T[2] = "obj" -> IF Refused(v[2]) THEN Refusal ELSE Obj(<<<<B("custom"), Str(v[2])>>>>)
      [] T[2] = "num" -> Arr(<<IntT(v[2])>>)
      [] T[2] = "raw" -> IF v[2] = <<>> THEN Null ELSE LET st == Run(v[2]) IN IF st.m = "d" THEN st.val ELSE Refusal
RECURSIVE HasRefusal(_)
HasRefusal(d) == CASE d = Refusal -> TRUE
                   [] d[1] = "a" -> \E i \in 1..Len(d[2]) : HasRefusal(d[2][i])
                   [] d[1] = "o" -> \E i \in 1..Len(d[2]) : HasRefusal(d[2][i][2])
                   [] d[1] = "S" -> HasRefusal(d[2])
                   [] OTHER -> FALSE

(* --- names ---------------------------------------------------------------- *)
IsUpC(c) == c >= 65 /\ c <= 90
IsLowC(c) == (c >= 97 /\ c <= 122) \/ IsDigit(c)
RECURSIVE Split(_, _, _, _, _)
\* words of a camel-case name, lower case: <<words so far, word being read>>
Split(s, i, up, words, buf) ==
    IF i > Len(s) THEN IF buf = <<>> THEN words ELSE Append(words, buf)
    ELSE LET c == s[i]
             n == IF IsUpC(c) THEN up + 1 ELSE 0
             cut == \/ IsUpC(c) /\ (n = 1 \/ (n > 2 /\ i < Len(s) /\ IsLowC(s[i + 1])))
                    \/ ~IsUpC(c) /\ ~IsLowC(c)
             ws == IF cut /\ buf # <<>> THEN Append(words, buf) ELSE words
             b0 == IF cut THEN <<>> ELSE buf
         IN Split(s, i + 1, n, ws, IF IsUpC(c) \/ IsLowC(c) THEN Append(b0, Lower(c)) ELSE b0)
Snake(s) == Join(Split(s, 1, 0, <<>>, <<>>), B("_"))
Capital(s) == IF s = <<>> THEN s ELSE <<Upper(s[1])>> \o LowerStr(Tail(s))

NameOf(f) == IF f.name # <<>> THEN f.name
             ELSE IF f.json # <<>> /\ f.json[1] # <<>> THEN f.json[1]
             ELSE Snake(f.go)
IsIgnored(f) == f.json # <<>> /\ f.json[1] = B("-") /\ f.json[2] = <<>>
OptsOf(f) == IF f.json = <<>> THEN <<>> ELSE f.json[2]
\* the last of two contrary options counts
Last2(f, on, off, dflt) == FoldLeft(LAMBDA acc, o : IF o = on THEN TRUE ELSE IF o = off THEN FALSE ELSE acc, dflt, OptsOf(f))
NoInfo == [oe |-> FALSE, oz |-> FALSE, of |-> FALSE, fs |-> FALSE]
InfoOf(f) == [oe |-> Last2(f, "omitempty", "allowempty", TRUE), oz |-> Last2(f, "omitzero", "allowzero", FALSE),
              of |-> Last2(f, "omitfalse", "allowfalse", FALSE), fs |-> Last2(f, "string", "", FALSE)]

RECURSIVE Flat(_)
\* the fields of a struct type, those of embedded structs included: [f, path]
Flat(fs) ==
    FoldLeft(LAMBDA acc, i :
        LET f == fs[i] IN
        IF f.emb = "" THEN IF IsIgnored(f) THEN acc ELSE Append(acc, [f |-> f, path |-> <<i>>])
        ELSE LET sub == Flat(f.t[2])
                 dep(g) == LET r == SelectSeq(f.edep, LAMBDA p : p[1] = NameOf(g)) IN IF r = <<>> THEN g.dep ELSE r[1][2]
             IN acc \o [j \in 1..Len(sub) |-> [f |-> [sub[j].f EXCEPT !.dep = dep(sub[j].f)], path |-> <<i>> \o sub[j].path]],
        <<>>, [i \in 1..Len(fs) |-> i])

RECURSIVE GetPath(_, _, _)
GetPath(T, v, path) ==
    LET i == Head(path)
        f == T[2][i]
        x == v[2][i]
    IN IF Len(path) = 1 THEN x
       ELSE GetPath(f.t, IF f.emb = "v" THEN x ELSE IF x = Nil THEN Zero(f.t) ELSE x[2], Tail(path))
RECURSIVE SetPath(_, _, _, _)
SetPath(T, v, path, y) ==
    LET i == Head(path)
        f == T[2][i]
        x == v[2][i]
    IN IF Len(path) = 1 THEN <<"st", [v[2] EXCEPT ![i] = y]>>
       ELSE IF f.emb = "v" THEN <<"st", [v[2] EXCEPT ![i] = SetPath(f.t, x, Tail(path), y)]>>
       ELSE <<"st", [v[2] EXCEPT ![i] = <<"p", SetPath(f.t, IF x = Nil THEN Zero(f.t) ELSE x[2], Tail(path), y)>>]>>

(* --- marshalling ---------------------------------------------------------- *)
\* a float in the fixed notation with six decimals, for values that need no more
SixDecimals(v) ==
    LET d == v[3]
        e == v[4]
        ip == IF d = <<>> \/ e <= 0 THEN <<48>> ELSE SubSeq(PadTo(d, e), 1, e)
        fp == IF d = <<>> THEN <<>> ELSE IF e <= 0 THEN Zeros(-e) \o d ELSE IF e >= Len(d) THEN <<>> ELSE SubSeq(d, e + 1, Len(d))
    IN (IF v[2] THEN <<MINUS>> ELSE <<>>) \o ip \o <<DOT>> \o PadTo(fp, 6)
\* a binary fraction of few digits: it is the number itself that its shortest digits spell
Fifths == <<1, 5, 25, 125, 625, 3125, 15625>>
Dyadic(v) == LET f == IF v[4] >= Len(v[3]) THEN 0 ELSE Len(v[3]) - v[4] IN
             /\ v[4] <= 7 /\ f <= 6 /\ Len(v[3]) <= 9
             /\ LET n == NatOf(PadTo(v[3], v[4])) IN n % Fifths[f + 1] = 0 /\ n \div Fifths[f + 1] < 16777216
\* whether the shortest digits are so near the number that both round to the same six decimals
SixEnough(v, bits) ==
    /\ ~IsUnknown(v)
    /\ \/ v[3] = <<>>
       \/ v[4] >= Len(v[3]) /\ v[4] <= (IF bits = 64 THEN 15 ELSE 7)
       \/ v[4] <= (IF bits = 64 THEN 9 ELSE 1)
       \/ Dyadic(v)
RECURSIVE Inc(_)
Inc(s) == IF s = <<>> THEN <<49>>
          ELSE LET m == Len(s) IN IF s[m] < 57 THEN [s EXCEPT ![m] = @ + 1] ELSE Append(Inc(SubSeq(s, 1, m - 1)), 48)
SixText(v, bits) ==
    IF ~SixEnough(v, bits) THEN Wild
    ELSE LET k == v[4] + 6 IN
         IF v[3] = <<>> \/ k >= Len(v[3]) THEN Str(SixDecimals(v))
         ELSE IF k < 0 THEN Str(SixDecimals(<<"f", v[2], <<>>, 0>>))
         ELSE LET kept == SubSeq(v[3], 1, k)
                  rest == SubSeq(v[3], k + 1, Len(v[3]))
                  up == Inc(kept)
              IN IF rest = <<53>> THEN Wild
                 ELSE IF rest[1] < 53 THEN Str(SixDecimals(MkFloat(v[2], kept, v[4])))
                 ELSE Str(SixDecimals(MkFloat(v[2], up, v[4] + Len(up) - Len(kept))))

\* the field at the end of the chain of replacements that starts with name, <<>> if it loops
RECURSIVE ChainEnd(_, _, _)
ChainEnd(deps, name, steps) ==
    LET r == SelectSeq(deps, LAMBDA p : p[1] = name) IN
    IF r = <<>> THEN <<name>> ELSE IF steps = 0 THEN <<>> ELSE ChainEnd(deps, r[1][2], steps - 1)

None == <<>>      \* left out
Some(d) == <<d>>
AsString(info, d) == Some(IF info.fs THEN <<"S", d>> ELSE d)

RECURSIVE Mar(_, _, _, _)
Mar(T, v, info, all) ==
    LET k == T[1]
        omitted == IF all THEN Some(Null) ELSE None
    IN
    CASE v[1] = "nil" -> omitted
      [] k = "bool" -> IF ~v[2] /\ info.of /\ ~all THEN None
                       ELSE Some(IF info.fs THEN Str(IF v[2] THEN B("true") ELSE B("false")) ELSE v)
      [] k = "int" -> IF v = IntN(0) /\ info.oz /\ ~all THEN None ELSE Some(IF info.fs THEN Str(v[2]) ELSE v)
      [] k = "float" -> IF v[3] = <<>> /\ info.oz /\ ~all THEN None ELSE Some(IF info.fs THEN SixText(v, T[2]) ELSE v)
      [] k = "string" -> IF v[2] = <<>> /\ info.oe /\ ~all THEN None ELSE Some(v)
      [] k = "tri" -> IF v[2] = B("true") THEN Some(Bool(TRUE)) ELSE IF v[2] = B("false") THEN Some(Bool(FALSE)) ELSE omitted
      [] k = "time" -> IF v = ZeroTime THEN (IF info.oe /\ ~all THEN None ELSE Some(Str(<<>>)))
                       ELSE Some(<<"T", v[2], v[3], 1000 * (v[4] \div 1000)>>)
      [] k = "cust" -> IF Writes(T, FALSE) THEN Some(CustomDoc(T, v)) ELSE Mar(Under(T), UnderVal(T, v), info, all)
      [] k = "ptr" /\ T[2][1] = "cust" -> IF Writes(T[2], TRUE) THEN Some(CustomDoc(T[2], v[2])) ELSE Mar(Under(T[2]), UnderVal(T[2], v[2]), info, all)
      [] k = "ptr" -> IF T[2] = Time THEN Some(<<"T", v[2][2], v[2][3], v[2][4]>>) ELSE Mar(T[2], v[2], info, all)
      [] k \in {"slice", "array"} ->
           IF v[2] = <<>> /\ info.oe /\ ~all THEN None
           ELSE LET E == IF k = "slice" THEN T[2] ELSE T[3]
                IN AsString(info, Arr(FoldLeft(LAMBDA acc, x : acc \o Mar(E, x, NoInfo, all), <<>>, v[2])))
      [] k = "map" ->
           IF v[2] = <<>> /\ info.oe /\ ~all THEN None
           ELSE AsString(info, Obj(FoldLeft(LAMBDA acc, p : LET d == Mar(T[2], p[2], NoInfo, all) IN
                                                            IF d = None THEN acc ELSE Append(acc, <<p[1], d[1]>>), <<>>, v[2])))
      [] k = "struct" ->
           LET fs == Flat(T[2])
               deps == FoldLeft(LAMBDA acc, x : IF x.f.dep = <<>> THEN acc ELSE Append(acc, <<NameOf(x.f), x.f.dep>>), <<>>, fs)
               own == FoldLeft(LAMBDA ps, x :
                        IF x.f.dep # <<>> THEN ps
                        ELSE LET d == Mar(x.f.t, GetPath(T, v, x.path), InfoOf(x.f), all) IN
                             IF d = None THEN ps ELSE Put(ps, NameOf(x.f), d[1]), <<>>, fs)
               both == FoldLeft(LAMBDA ps, p :
                        LET e == ChainEnd(deps, p[2], Len(deps)) IN
                        IF e = <<>> \/ ~Has(own, e[1]) THEN ps ELSE Put(ps, p[1], At(own, e[1])), own, deps)
           IN IF both = <<>> /\ info.oe /\ ~all THEN None ELSE AsString(info, Obj(both))
      [] k \in {"any", "iface"} -> Mar(v[2], v[3], info, all)
      [] k \in {"doc", "docp"} -> Some(v[2])
      [] k = "docv" -> IF v[2] = EmptyDoc(T[2]) /\ info.oe /\ ~all THEN None ELSE Some(v[2])
Marshal(T, v, all) == LET d == Mar(T, v, NoInfo, all) IN IF d = None THEN Null ELSE d[1]

(* --- numbers in text ------------------------------------------------------ *)
RECURSIVE GroupsOk(_, _)
\* groups of one to three digits each followed by sep, then three digits
GroupsOk(s, sep) ==
    LET p == Find(s, {sep}) IN
    IF p = 0 THEN Len(s) = 3 /\ DigitsOrNone(s)
    ELSE p \in 2..4 /\ DigitsOrNone(SubSeq(s, 1, p - 1)) /\ GroupsOk(SubSeq(s, p + 1, Len(s)), sep)
Grouped(s, sep) == IF Find(s, {sep}) = 0 THEN Len(s) <= 3 /\ DigitsOrNone(s) ELSE GroupsOk(s, sep)
\* sign, groups, then point and digits
IsGrouped(s, sep, point) ==
    LET m == Mag(s)
        p == Find(m, {point})
    IN IF p = 0 THEN Grouped(m, sep) ELSE Grouped(SubSeq(m, 1, p - 1), sep) /\ DigitsOrNone(SubSeq(m, p + 1, Len(m)))
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
PlainNumber(s) ==
    IF IsGrouped(s, COMMA, DOT) THEN Without(s, COMMA)
    ELSE IF IsGrouped(s, DOT, COMMA) THEN [i \in 1..Len(Without(s, DOT)) |-> IF Without(s, DOT)[i] = COMMA THEN DOT ELSE Without(s, DOT)[i]]
    ELSE s

MaxMag(bits, signed, neg) ==
    CASE bits = 8 -> IF ~signed THEN B("255") ELSE IF neg THEN B("128") ELSE B("127")
      [] bits = 16 -> IF ~signed THEN B("65535") ELSE IF neg THEN B("32768") ELSE B("32767")
      [] bits = 32 -> IF ~signed THEN B("4294967295") ELSE IF neg THEN B("2147483648") ELSE B("2147483647")
      [] bits = 64 -> IF ~signed THEN B("18446744073709551615") ELSE IF neg THEN MinInt64Mag ELSE MaxInt64Mag

(* --- unmarshalling: <<"ok" | "err" | "any", value>> ------------------------ *)
ok(v) == <<"ok", v>>
bad == <<"err", Wild>>
free == <<"any", Wild>>
Both(a, b) == IF "err" \in {a, b} THEN "err" ELSE IF "any" \in {a, b} THEN "any" ELSE "ok"

ToInt(T, neg, mag) ==   \* mag without leading zeros
    IF mag = <<>> THEN ok(IntN(0))
    ELSE IF neg /\ ~T[3] THEN bad
    ELSE IF DecLeq(mag, MaxMag(T[2], T[3], neg)) THEN ok(<<"i", (IF neg THEN <<MINUS>> ELSE <<>>) \o mag>>) ELSE bad
MaxF32 == B("34028234663852886")
\* what lies beyond rounds to more than the largest; its own shortest digits are beyond it, but fit
PastF32 == B("34028235677973366")
ToFloat(T, f) ==
    IF IsUnknown(f) THEN (IF T[2] = 64 THEN ok(f) ELSE <<"any", UnknownFloat>>)
    ELSE IF T[2] = 64 THEN ok(Blur(f))
    ELSE IF f[3] = <<>> THEN ok(f)
    ELSE IF f[4] > 39 \/ (f[4] = 39 /\ LexLess(PastF32, f[3])) THEN bad
    ELSE IF f[4] = 39 /\ LexLess(MaxF32, f[3]) THEN (IF f[3] = B("34028235") THEN ok(f) ELSE <<"any", UnknownFloat>>)
    ELSE ok(IF Len(f[3]) <= 6 /\ f[4] > -36 THEN f ELSE Rounded(f, "s"))
IntDoc2Float(t) == MkFloat(Neg(t), Mag(t), Len(Mag(t)))
\* the integral part of a float, <<>> digits for zero
TruncMag(f) == IF f[3] = <<>> \/ f[4] <= 0 THEN <<>> ELSE SubSeq(PadTo(f[3], f[4]), 1, f[4])
Integral(f) == f[3] = <<>> \/ f[4] >= Len(f[3])
YesSet == {B("true"), B("yes"), B("on"), B("1")}
NoSet == {B("false"), B("no"), B("off"), B("0")}
\* RFC 3339, which pointers to times are read as
Rfc3339(s) == /\ Len(s) >= 20 /\ Shape(SubSeq(s, 1, 10), B("dddd-dd-dd")) /\ s[11] = 84
              /\ LET c == ClockParts(SubSeq(s, 12, Len(s))) IN c # <<>> /\ c[5] /\ ZoneOk(c[6])
TimeVal(t) == <<"t", t[2], t[3], t[4]>>
\* forms that only asking a document for a timestamp knows
OtherForm(s) == Find(s, {SP}) # 0 /\ ~Shape(SubSeq(TrimWide(s), 1, IF Len(TrimWide(s)) < 10 THEN Len(TrimWide(s)) ELSE 10), B("dddd-dd-dd")) /\ Find(s, {COMMA}) = 0

\* scalars to scalars
FromInt(T, t) ==
    LET k == T[1] IN
    CASE k = "int" -> IF Neg(t) /\ ~T[3] /\ T[2] = 64 THEN free ELSE ToInt(T, Neg(t), DropZeros(Mag(t)))
      [] k = "float" -> ToFloat(T, IntDoc2Float(t))
      [] k = "bool" -> ok(Bool(t # B("0")))
      [] k = "string" -> ok(Str(t))
      [] k = "tri" -> ok(Str(IF t = B("0") THEN B("false") ELSE B("true")))
      [] k = "any" -> ok(<<"any", <<"int", 64, TRUE>>, IntT(t)>>)
      [] OTHER -> bad
FromBool(T, b) ==
    LET k == T[1]
        w == IF b THEN B("true") ELSE B("false")
    IN
    CASE k = "int" -> ok(IntN(IF b THEN 1 ELSE 0))
      [] k = "float" -> ok(IF b THEN <<"f", FALSE, <<49>>, 1>> ELSE Zero(T))
      [] k = "bool" -> ok(Bool(b))
      [] k \in {"string", "tri"} -> ok(Str(w))
      [] k = "any" -> ok(<<"any", <<"bool">>, Bool(b)>>)
      [] OTHER -> bad
FromFloat(T, f) ==
    LET k == T[1] IN
    IF IsUnknown(f) THEN (IF k \in {"struct", "map", "slice", "array", "time"} THEN bad ELSE free)
    ELSE
    CASE k = "int" ->
           LET mag == TruncMag(f)
               max == MaxMag(T[2], T[3], f[2])
               r == ToInt(T, f[2], mag)
           IN IF Len(mag) = Len(max) /\ Len(mag) > 15 /\ SubSeq(mag, 1, 15) = SubSeq(max, 1, 15) THEN free
              ELSE IF r[1] = "ok" /\ f[4] > 15 THEN ok(Wild) ELSE r
      [] k = "float" -> IF T[2] = 64 THEN ok(f) ELSE ToFloat(T, f)
      [] k = "bool" -> ok(Bool(f[3] # <<>>))
      [] k = "string" -> ok(SixText(f, 64))
      [] k = "tri" -> IF f[3] = <<>> THEN ok(Str(B("false"))) ELSE IF f[4] > 0 THEN ok(Str(B("true"))) ELSE ok(Wild)
      [] k = "any" -> ok(<<"any", <<"float", 64>>, f>>)
      [] OTHER -> bad
FromText(T, old, s) ==
    LET k == T[1] IN
    CASE k = "int" ->
           IF s = <<>> THEN ok(old)
           ELSE LET n == PlainNumber(s) IN
                IF ~T[3] THEN IF AllDigits(n) THEN ToInt(T, FALSE, DropZeros(n)) ELSE bad
                ELSE IF IsInt64(n) THEN ToInt(T, Neg(n), DropZeros(Mag(n))) ELSE bad
      [] k = "float" ->
           IF s = <<>> THEN ok(old)
           ELSE LET f == FloatWord(PlainNumber(s)) IN IF f[1] = "f" THEN ToFloat(T, f) ELSE bad
      [] k = "bool" -> ok(Bool(LowerStr(TrimWide(s)) \in YesSet))
      [] k = "string" -> ok(Str(s))
      [] k = "tri" -> LET w == LowerStr(s) IN ok(Str(IF w \in YesSet THEN B("true") ELSE IF w \in NoSet THEN B("false") ELSE <<>>))
      [] k = "time" -> IF s = <<>> THEN ok(ZeroTime)
                       ELSE LET t == TimeOf(s) IN IF OtherForm(s) THEN free ELSE IF t[1] = "ok" THEN ok(TimeVal(t)) ELSE IF t[1] = "err" THEN ok(ZeroTime) ELSE free
      [] k = "any" -> ok(<<"any", <<"string">>, Str(s)>>)
      [] OTHER -> bad

\* a document into a document variable
ToDoc(how, k, old, d) ==
    LET same == [dict |-> "o", array |-> "a", string |-> "s", int |-> "i", float |-> "f", bool |-> "b"][k] IN
    IF d[1] = same
    THEN IF how = "docv" /\ k = "dict" THEN ok(<<"j", Obj(FoldLeft(LAMBDA ps, p : Put(ps, p[1], p[2]), old[2][2], d[2]))>>)
         ELSE IF how = "docv" /\ k = "array" /\ old[2][2] # <<>> THEN ok(Wild)
         ELSE ok(<<"j", d>>)
    ELSE CASE k = "string" /\ d[1] = "i" -> ok(<<"j", Str(d[2])>>)
           [] k = "string" /\ d[1] = "b" -> ok(<<"j", Str(Render(d))>>)
           [] k = "string" /\ d[1] = "f" -> IF SixText(d, 64) = Wild THEN ok(Wild) ELSE ok(<<"j", SixText(d, 64)>>)
           [] k = "int" /\ d[1] = "f" -> IF IsUnknown(d) \/ d[4] > 15 THEN free ELSE ok(<<"j", IntT(IntText((IF d[2] THEN <<MINUS>> ELSE <<>>) \o (IF TruncMag(d) = <<>> THEN <<48>> ELSE TruncMag(d))))>>)
           [] k = "bool" /\ d[1] = "f" /\ how = "docv" -> IF IsUnknown(d) \/ d[4] > 15 \/ ~Integral(d) THEN free ELSE ok(<<"j", Bool(d[3] # <<>>)>>)
           [] k = "bool" /\ d[1] = "s" -> ok(<<"j", Bool(LowerStr(d[2]) \in YesSet)>>)
           [] OTHER -> bad

\* the fields a member of that name speaks of
Matches(fs, name) ==
    LET idx == [i \in 1..Len(fs) |-> i]
        strict == SelectSeq(idx, LAMBDA i : NameOf(fs[i].f) = name)
    IN IF strict # <<>> THEN strict
       ELSE SelectSeq(idx, LAMBDA i : \/ Snake(fs[i].f.go) = Snake(name)
                                      \/ fs[i].f.go \in {name, Capital(name)})

\* the room of a slice; one that was made shorter keeps its room; what is in the room beyond its length is of no account
Room(old) == IF old = Nil THEN 0 ELSE IF Len(old) = 3 THEN old[3] ELSE Len(old[2])
\* what element i of a slice is before a list of n is stored there
Before(old, n, i, E) == IF Room(old) < n THEN Zero(E) ELSE IF i <= Len(old[2]) THEN old[2][i] ELSE Zero(E)

\* a part of a document given to the method of a custom type
CustomRead(T, d) ==
    CASE T[2] \in {"str", "map", "slc"} ->
           IF d[1] = "s" /\ Len(d[2]) >= 2 /\ d[2][1] = 60 /\ d[2][Len(d[2])] = 62 THEN ok(<<"c", SubSeq(d[2], 2, Len(d[2]) - 1)>>) ELSE bad
      [] T[2] = "obj" -> IF d[1] = "o" /\ Len(d[2]) = 1 /\ d[2][1][1] = B("custom") /\ d[2][1][2][1] = "s" THEN ok(<<"c", d[2][1][2][2]>>) ELSE bad
      [] T[2] = "num" -> IF d[1] # "a" \/ Len(d[2]) # 1 THEN bad
                         ELSE IF d[2][1][1] = "i" THEN ok(<<"c", d[2][1][2]>>) ELSE IF d[2][1][1] = "f" THEN free ELSE bad
      [] T[2] = "raw" -> IF d[1] = "s" /\ Refused(d[2]) THEN bad ELSE ok(<<"R", d>>)

\* the hooks of a struct that was filled: embedded structs first, then its own
RECURSIVE AfterHooks(_, _)
AfterHooks(T, v) ==
    LET sub == <<"st", [i \in 1..Len(T[2]) |->
                  LET f == T[2][i]
                      x == v[2][i]
                  IN CASE f.emb = "v" -> AfterHooks(f.t, x)
                       [] f.emb = "p" /\ x # Nil -> <<"p", AfterHooks(f.t, x[2])>>
                       [] OTHER -> x]>>
        own == [i \in 1..Len(T[2]) |-> CASE T[2][i].go = B("N") -> IntN(1 + CHOOSE n \in 0..60 : IntN(n) = sub[2][i])
                                          [] T[2][i].t = <<"fresh">> -> Bool(TRUE)
                                          [] OTHER -> sub[2][i]]
    IN IF Len(T) = 3 THEN <<"st", own>> ELSE sub

P_(v) == <<"p", v>>
RECURSIVE Unm(_, _, _)
RECURSIVE SetMember(_, _, _, _, _)
\* acc = [st |-> ok/err/any, v |-> struct value, seen |-> names]; sets every field the name reaches, and
\* those along their chains of replacements; one that cannot be converted ends its chain
SetMember(T, fs, acc, name, d) ==
    IF name \in acc.seen THEN acc
    ELSE FoldLeft(LAMBDA a, i :
            IF a.st = "err" THEN a    \* what follows a failure is not specified further
            ELSE LET f == fs[i].f
                     r == Unm(f.t, GetPath(T, a.v, fs[i].path), IF a.st = "any" THEN Wild ELSE d)
                     a1 == [a EXCEPT !.st = Both(a.st, r[1]), !.v = SetPath(T, a.v, fs[i].path, r[2])]
                 IN IF f.dep = <<>> \/ a1.st = "err" THEN a1 ELSE SetMember(T, fs, a1, f.dep, d),
            [acc EXCEPT !.seen = @ \cup {name}], Matches(fs, name))

TextKeys(T) == Len(T) = 2 \/ T[3] = "named"
HoldsMembers(C) == C[1] \in {"struct", "map"} \/ (C[1] = "ptr" /\ C[2][1] \in {"struct", "map"})
\* an object of a registered type made from a document
Rebuild(C, v, d) ==
    LET r == IF C[1] = "ptr" /\ v # Nil
             THEN LET q == Unm(C[2], v[2], d) IN <<q[1], P_(q[2])>>
             ELSE IF C[1] = "map" /\ v # Nil /\ d[1] = "n" THEN ok(Wild)
             ELSE Unm(C, v, d)
    IN IF r[1] = "ok" THEN ok(<<"any", C, r[2]>>) ELSE IF r[1] = "err" THEN bad ELSE free

Unm(T, old, d) ==
    LET k == T[1] IN
    IF d = Wild THEN free
    ELSE IF old = Wild THEN (IF d[1] = "n" THEN ok(Zero(T)) ELSE free)
    ELSE IF d[1] = "n" THEN ok(Zero(T))
    ELSE IF k = "cust"
    THEN IF T[3] # "m" THEN CustomRead(T, d)
         ELSE LET r == Unm(Under(T), UnderVal(T, old), d) IN <<r[1], OfUnder(T, r[2])>>
    ELSE IF k = "iface"
    THEN LET al == T[3][1] IN
         CASE al \in {"none", "odd"} -> bad
           [] al = "doc" -> IF d[1] = "o" THEN ok(<<"any", <<"doc">>, <<"j", d>>>>) ELSE free
           [] al = "new" -> LET r == Rebuild(T[3][2], T[3][3], d) IN
                            IF (d[1] = "o" /\ HoldsMembers(T[3][2])) \/ r[1] = "err" THEN r ELSE free   \* only objects are rebuilt inside others
    ELSE IF k = "doc" THEN ok(<<"j", d>>)
    ELSE IF k \in {"docp", "docv"} THEN ToDoc(k, T[2], old, d)
    ELSE IF k = "time" /\ d[1] # "s" THEN bad
    ELSE IF k = "ptr" /\ T[2] = Time
    THEN IF d[1] # "s" THEN bad
         ELSE IF ~Rfc3339(d[2]) THEN bad
         ELSE LET t == TimeOf(d[2]) IN CASE t[1] = "ok" -> ok(<<"p", TimeVal(t)>>) [] t[1] = "err" -> bad [] OTHER -> free
    ELSE IF k = "ptr"
    THEN LET E == T[2]
             base == IF E[1] = "cust" THEN Under(E)[1] ELSE E[1]
             can == CASE E[1] = "cust" /\ E[3] # "m" -> TRUE
                      [] d[1] = "a" -> base \in {"slice", "array"} [] d[1] = "o" -> base \in {"struct", "map"} [] OTHER -> TRUE
         IN IF ~can /\ E[1] \notin {"ptr", "docp"} THEN bad
            ELSE LET r == Unm(E, IF old = Nil THEN Zero(E) ELSE old[2], d) IN <<r[1], <<"p", r[2]>>>>
    ELSE
    CASE d[1] = "i" -> FromInt(T, d[2])
      [] d[1] = "b" -> FromBool(T, d[2])
      [] d[1] = "f" -> FromFloat(T, d)
      [] d[1] = "s" -> IF k = "slice"
                       THEN LET r == Unm(T[2], Before(old, 1, 1, T[2]), d)
                            IN <<r[1], <<"l", <<r[2]>>, IF Room(old) > 1 THEN Room(old) ELSE 1>>>>
                       ELSE FromText(T, old, d[2])
      [] d[1] = "a" ->
           (CASE k \in {"string", "tri"} -> IF k = "tri" THEN free ELSE ok(<<"S", d>>)
              [] k = "any" -> ok(<<"any", <<"slice", <<"doc">>>>, <<"l", [i \in 1..Len(d[2]) |-> <<"j", d[2][i]>>]>>>>)
              [] k = "array" /\ Len(d[2]) # T[2] -> bad
              [] k \in {"slice", "array"} ->
                   LET E == IF k = "slice" THEN T[2] ELSE T[3]
                       n == Len(d[2])
                       rs == [i \in 1..n |-> Unm(E, IF k = "slice" THEN Before(old, n, i, E) ELSE old[2][i], d[2][i])]
                       st == FoldLeft(LAMBDA a, r : Both(a, r[1]), "ok", rs)
                   IN CASE st = "err" -> bad [] st = "any" -> free [] OTHER -> ok(<<"l", [i \in 1..n |-> rs[i][2]], IF Room(old) > n THEN Room(old) ELSE n>>)
              [] OTHER -> bad)
      [] d[1] = "o" ->
           (CASE k \in {"string", "tri"} -> IF k = "tri" THEN free ELSE ok(<<"S", d>>)
              [] k = "map" /\ ~TextKeys(T) -> bad
              [] k = "map" ->
                   LET rs == [i \in 1..Len(d[2]) |-> Unm(T[2], Zero(T[2]), d[2][i][2])]
                       st == FoldLeft(LAMBDA a, r : Both(a, r[1]), "ok", rs)
                       new == FoldLeft(LAMBDA ps, i : Put(ps, d[2][i][1], rs[i][2]), IF old = Nil THEN <<>> ELSE old[2], [i \in 1..Len(rs) |-> i])
                   IN CASE st = "err" -> bad [] st = "any" -> free [] OTHER -> ok(<<"m", new>>)
              [] k = "struct" ->
                   LET fs == Flat(T[2])
                       done == FoldLeft(LAMBDA a, p :
                                  LET r == SetMember(T, fs, [st |-> "ok", v |-> a[2], seen |-> {}], p[1], p[2])
                                  IN <<Both(a[1], r.st), r.v>>, ok(old), d[2])
                   IN <<done[1], AfterHooks(T, done[2])>>
              [] OTHER -> bad)
      [] OTHER -> free

(* --- registered types rebuilt from a text ---------------------------------- *)
RECURSIVE Marked(_, _, _)
\* the transformers of a type, in the order of their registration, note their marks in its field Mark
Marked(C, v, marks) ==
    IF marks = <<>> THEN v
    ELSE LET fs == C[2][2]
             i == CHOOSE i \in 1..Len(fs) : fs[i].go = B("Mark")
             one == P_(<<"st", [v[2][2] EXCEPT ![i] = Str(@[2] \o Head(marks))]>>)
         IN Marked(C, one, Tail(marks))
Registered == {"dict", "array"}
Deserialize(T, text) ==
    IF (T[1] = "iface" /\ T[3][1] = "none") \/ (T[1] = "docp" /\ T[2] \notin Registered) \/ T[1] \notin {"iface", "docp", "doc"} THEN bad
    ELSE LET st == Run(text) IN
         IF st.m # "d" THEN bad
         ELSE LET d == st.val IN
         CASE T[1] = "doc" -> ok(<<"j", d>>)
           [] T[1] = "docp" -> Unm(<<"docv", T[2]>>, <<"j", EmptyDoc(T[2])>>, d)
           [] T[3][1] = "doc" -> ok(<<"any", <<"doc">>, <<"j", d>>>>)
           [] T[3][1] = "odd" -> free
           [] T[3][1] = "new" -> LET r == Rebuild(T[3][2], T[3][3], d) IN
                                 IF r[1] # "ok" \/ r[2] = Wild THEN r ELSE ok(<<"any", T[3][2], Marked(T[3][2], r[2][3], T[3][4])>>)

(* --- agreement of what was expected with what was found ------------------- *)
\* no white space outside strings
Compact(s) == Rfc!Squeeze(s) = s
IsTextOf(s, d) == LET st == Run(s) IN st.m = "d" /\ Same(Blur(st.val), Blur(NumNorm(d)))
RECURSIVE DocMatch(_, _)
DocMatch(want, got) ==
    CASE want[1] = "?" -> TRUE
      [] want[1] = "T" -> IsS(got) /\ TimeOf(got[2]) \in {<<"ok", want[2], want[3], want[4]>>, <<"?">>}
      [] want[1] = "S" -> IsS(got) /\ Compact(got[2]) /\ LET st == Run(got[2]) IN st.m = "d" /\ DocMatch(want[2], st.val)
      [] want[1] = "a" -> IsA(got) /\ Len(want[2]) = Len(got[2]) /\ \A i \in 1..Len(want[2]) : DocMatch(want[2][i], got[2][i])
      [] want[1] = "o" -> /\ IsO(got) /\ Len(want[2]) = Len(got[2])
                          /\ \A i \in 1..Len(want[2]) : want[2][i][1] = got[2][i][1] /\ DocMatch(want[2][i][2], got[2][i][2])
      [] want[1] = "f" -> \/ IsF(got) /\ Same(want, got)
                          \/ IsI(got) /\ NumNorm(want) = got
      [] OTHER -> want = got
RECURSIVE Match(_, _)
Match(want, got) ==
    CASE want[1] = "?" -> TRUE
      [] want[1] = "S" -> got[1] = "s" /\ Compact(got[2]) /\ IsTextOf(got[2], want[2])
      [] want[1] = "p" -> got[1] = "p" /\ Match(want[2], got[2])
      [] want[1] \in {"l", "st"} -> got[1] = want[1] /\ Len(want[2]) = Len(got[2]) /\ \A i \in 1..Len(want[2]) : Match(want[2][i], got[2][i])
      [] want[1] = "m" -> got[1] = "m" /\ Len(want[2]) = Len(got[2]) /\ \A i \in 1..Len(want[2]) : want[2][i][1] = got[2][i][1] /\ Match(want[2][i][2], got[2][i][2])
      [] want[1] = "any" -> got[1] = "any" /\ got[2] = want[2] /\ Match(want[3], got[3])
      [] want[1] = "f" -> got[1] = "f" /\ Same(want, got)
      [] want[1] = "R" -> got[1] = "c" /\ IsTextOf(got[2], want[2])
      [] want[1] = "j" -> got[1] = "j" /\ Same(want[2], got[2])
      [] OTHER -> want = got
=============================================================================
