------------------------------- MODULE JParse -------------------------------
(***************************************************************************)
(* The parser as an automaton that is fed one byte at a time.              *)
(*                                                                         *)
(* A parser state is a record                                              *)
(*   m    mode: "v" a value is expected, "k" a key or the end of an object *)
(*        "q" inside a quoted string, "w" inside an unquoted word,         *)
(*        "c" a colon is expected, "a" after a value inside a container,   *)
(*        "d" done, "e" rejected                                           *)
(*   stk  the open containers, outermost first                             *)
(*   buf  the bytes of the string or word being read                       *)
(*   q    the quote that closes the string                                 *)
(*   key  TRUE while the string or word is an object key                   *)
(*   esc  the escape sequence read so far                                  *)
(*   hi   a high surrogate waiting for its low half, or 0                  *)
(*   val  the document, once done                                          *)
(*   n    the number of bytes consumed                                     *)
(*   asc  keys have come in strictly ascending order in every object       *)
(* An open container is [o |-> is it an object, xs |-> elements or         *)
(* members, k |-> pending key, nid |-> node id].                           *)
(***************************************************************************)
EXTENDS JValue

NidKey == B("___jnid_")
WordEnd == {SP, COLON, COMMA, TAB, CR, LF, RBR, RBK}

PInit == [m |-> "v", stk |-> <<>>, buf |-> <<>>, q |-> 0, key |-> FALSE,
          esc |-> <<>>, hi |-> 0, val |-> Null, n |-> 0, asc |-> TRUE]
Reject(st) == [st EXCEPT !.m = "e", !.stk = <<>>, !.buf = <<>>, !.esc = <<>>]

(* --- unquoted words ---------------------------------------------------- *)
WNull == {<<>>, B("null"), B("none")}
WTrue == {B("true"), B("yes")}
WFalse == {B("false"), B("no")}
WInf == {B("inf"), B("infinity")}
WNan == B("nan")

Signed(w) == w # <<>> /\ Head(w) \in {PLUS, MINUS}
Mag(w) == IF Signed(w) THEN Tail(w) ELSE w
Neg(w) == w # <<>> /\ Head(w) = MINUS
IntText(w) == LET m == DropZeros(Mag(w)) IN
              IF m = <<>> THEN <<48>> ELSE IF Neg(w) THEN <<MINUS>> \o m ELSE m
IsInt64(w) == AllDigits(Mag(w)) /\ FitsInt64(Neg(w), DropZeros(Mag(w)))

RECURSIVE FindFrom(_, _, _)
FindFrom(s, cs, i) == IF i > Len(s) THEN 0 ELSE IF s[i] \in cs THEN i ELSE FindFrom(s, cs, i + 1)
Find(s, cs) == FindFrom(s, cs, 1)

\* underscores are allowed between digits
UnderscoresOk(s) == \A i \in 1..Len(s) : s[i] # 95 \/
                       (i > 1 /\ i < Len(s) /\ IsDigit(s[i - 1]) /\ IsDigit(s[i + 1]))
NoUnderscores(s) == SelectSeq(s, LAMBDA c : c # 95)
DigitsOrNone(s) == \A i \in 1..Len(s) : IsDigit(s[i])
\* <<is it a decimal float, digits, decimal point shift, exponent text>>
DecParts(mag) ==
    LET p == Find(mag, {101, 69})
        man == IF p = 0 THEN mag ELSE SubSeq(mag, 1, p - 1)
        ex == IF p = 0 THEN <<48>> ELSE SubSeq(mag, p + 1, Len(mag))
        dot == Find(man, {DOT})
        ip == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
        fp == IF dot = 0 THEN <<>> ELSE SubSeq(man, dot + 1, Len(man))
    IN <<DigitsOrNone(ip) /\ DigitsOrNone(fp) /\ ip \o fp # <<>> /\ AllDigits(Mag(ex)), ip, fp, ex>>
FloatLimit == B("179769313486231580793728971405303415")
\* <<"no">> not a float, else <<"f", ...>>; values beyond the largest float are not floats
DecFloat(neg, mag) ==
    LET parts == DecParts(mag) IN
    IF ~parts[1] THEN <<"no">>
    ELSE LET et == DropZeros(Mag(parts[4]))
             huge == Len(et) > 4
             e == IF huge THEN 10000 ELSE NatOf(et)
             ev == IF Neg(parts[4]) THEN -e ELSE e
             f == MkFloat(neg, parts[2] \o parts[3], Len(parts[2]) + ev)
         IN IF f[3] = <<>> THEN f
            ELSE IF f[4] > 309 \/ (f[4] = 309 /\ ~LexLess(f[3], FloatLimit)) THEN <<"no">>
            ELSE IF f[4] < -305 THEN UnknownFloat
            ELSE f
HexFloatOk(mag) ==
    /\ Len(mag) > 2 /\ mag[1] = 48 /\ mag[2] \in {120, 88}
    /\ LET r == SubSeq(mag, 3, Len(mag))
           p == Find(r, {112, 80})
       IN /\ p > 0
          /\ LET man == SubSeq(r, 1, p - 1)
                 ex == SubSeq(r, p + 1, Len(r))
                 hex == SelectSeq(man, LAMBDA c : c # DOT)
             IN /\ Len(man) - Len(hex) <= 1 /\ hex # <<>>
                /\ \A i \in 1..Len(hex) : IsHex(hex[i])
                /\ AllDigits(Mag(ex))
FloatWord(w) ==
    LET mag == Mag(w) IN
    IF LowerStr(mag) \in WInf THEN InfFloat(Neg(w))
    ELSE IF LowerStr(w) = WNan THEN NanFloat
    ELSE IF ~UnderscoresOk(mag) THEN <<"no">>
    ELSE IF HexFloatOk(NoUnderscores(mag)) THEN UnknownFloat
    ELSE DecFloat(Neg(w), NoUnderscores(mag))

\* the value of an unquoted word, or <<"bad">>
WordValue(w) ==
    IF w # <<>> /\ w[1] = LT /\ w[Len(w)] = GT
    THEN LET id == SubSeq(w, 2, Len(w) - 1) IN IF IsInt64(id) THEN Ref(IntText(id)) ELSE <<"bad">>
    ELSE LET l == LowerStr(w) IN
         IF l \in WNull THEN Null
         ELSE IF l \in WTrue THEN Bool(TRUE)
         ELSE IF l \in WFalse THEN Bool(FALSE)
         ELSE IF IsInt64(w) THEN IntT(IntText(w))
         ELSE LET f == FloatWord(w) IN IF f[1] = "f" THEN f ELSE Str(w)

(* --- building ---------------------------------------------------------- *)
TopIsObj(st) == st.stk # <<>> /\ st.stk[Len(st.stk)].o
TopIsArr(st) == st.stk # <<>> /\ ~st.stk[Len(st.stk)].o

\* a complete value v takes its place
Attach(st, v) ==
    IF v[1] = "bad" THEN Reject(st)
    ELSE IF st.stk = <<>> THEN [st EXCEPT !.m = "d", !.val = v, !.buf = <<>>]
    ELSE LET d == Len(st.stk)
             top == st.stk[d]
         IN IF ~top.o
            THEN [st EXCEPT !.m = "a", !.buf = <<>>, !.stk[d].xs = Append(top.xs, v)]
            ELSE IF top.k = NidKey
            THEN IF IsI(v) THEN [st EXCEPT !.m = "a", !.buf = <<>>, !.stk[d].nid = v[2]] ELSE Reject(st)
            ELSE [st EXCEPT !.m = "a", !.buf = <<>>, !.stk[d].xs = Put(top.xs, top.k, v),
                            !.asc = @ /\ Rank(top.xs, top.k) = Len(top.xs)]

\* a node id that is not positive is no node id
NodeId(t) == IF t = <<>> \/ t[1] \in {MINUS, 48} THEN <<>> ELSE t
Open(st, obj) ==
    [st EXCEPT !.stk = Append(st.stk, [o |-> obj, xs |-> <<>>, k |-> <<>>, nid |-> <<>>]),
               !.m = IF obj THEN "k" ELSE "v"]
Close(st) ==
    LET d == Len(st.stk)
        top == st.stk[d]
        v == IF top.o THEN <<"o", top.xs, NodeId(top.nid)>> ELSE Arr(top.xs)
    IN Attach([st EXCEPT !.stk = SubSeq(st.stk, 1, d - 1)], v)

EndString(st) ==
    IF st.key
    THEN [st EXCEPT !.m = "c", !.stk[Len(st.stk)].k = st.buf, !.buf = <<>>]
    ELSE Attach(st, Str(st.buf))

(* --- inside a quoted string -------------------------------------------- *)
FlushHi(st) == IF st.hi = 0 THEN st ELSE [st EXCEPT !.buf = @ \o Utf8Enc(65533), !.hi = 0]
Lit(st, c) == LET s1 == FlushHi(st) IN [s1 EXCEPT !.buf = Append(@, c), !.esc = <<>>]
IsHigh(r) == r >= 55296 /\ r <= 56319
IsLow(r)  == r >= 56320 /\ r <= 57343
Rune(st, r) ==
    IF st.hi # 0 /\ IsLow(r)
    THEN [st EXCEPT !.buf = @ \o Utf8Enc(65536 + (st.hi - 55296) * 1024 + (r - 56320)), !.hi = 0, !.esc = <<>>]
    ELSE LET s1 == FlushHi(st) IN
         IF IsHigh(r) THEN [s1 EXCEPT !.hi = r, !.esc = <<>>]
         ELSE [s1 EXCEPT !.buf = @ \o Utf8Enc(r), !.esc = <<>>]
Escaped(c) == CASE c = 110 -> LF [] c = 114 -> CR [] c = 116 -> TAB [] c = 98 -> 8 [] c = 102 -> 12 [] OTHER -> c

InQuote(st, c) ==
    LET x == st.esc IN
    IF x = <<>>
    THEN IF c = BSL THEN [st EXCEPT !.esc = <<BSL>>]
         ELSE IF c = st.q THEN EndString(FlushHi(st))
         ELSE Lit(st, c)
    ELSE IF Len(x) = 1
    THEN IF c \in {117, 120} THEN [st EXCEPT !.esc = <<BSL, c>>]
         ELSE Lit(st, Escaped(c))
    ELSE IF ~IsHex(c) THEN Reject(st)
    ELSE IF x[2] = 120
    THEN IF Len(x) = 3 THEN Lit(st, HexVal(x[3]) * 16 + HexVal(c))
         ELSE [st EXCEPT !.esc = Append(x, c)]
    ELSE IF Len(x) = 5
    THEN Rune(st, HexVal(x[3]) * 4096 + HexVal(x[4]) * 256 + HexVal(x[5]) * 16 + HexVal(c))
    ELSE [st EXCEPT !.esc = Append(x, c)]

(* --- one byte ---------------------------------------------------------- *)
EndWord(st) ==
    IF st.key
    THEN [st EXCEPT !.m = "c", !.stk[Len(st.stk)].k = st.buf, !.buf = <<>>]
    ELSE Attach(st, WordValue(st.buf))

RECURSIVE Step(_, _)
\* the reaction to byte c, which has not been counted yet
Step(st, c) ==
    CASE st.m = "v" ->
           IF IsWs(c) THEN st
           ELSE IF c = LBR THEN Open(st, TRUE)
           ELSE IF c = LBK THEN Open(st, FALSE)
           ELSE IF c = RBK /\ TopIsArr(st) THEN Close(st)
           ELSE IF c \in {DQ, SQ} THEN [st EXCEPT !.m = "q", !.q = c, !.key = FALSE]
           ELSE Step([st EXCEPT !.m = "w", !.key = FALSE], c)
      [] st.m = "k" ->
           IF IsWs(c) THEN st
           ELSE IF c = RBR THEN Close(st)
           ELSE IF c \in {DQ, SQ} THEN [st EXCEPT !.m = "q", !.q = c, !.key = TRUE]
           ELSE Step([st EXCEPT !.m = "w", !.key = TRUE], c)
      [] st.m = "q" -> InQuote(st, c)
      [] st.m = "w" ->
           IF c \notin WordEnd THEN [st EXCEPT !.buf = Append(@, c)]
           ELSE LET s1 == EndWord(st) IN IF s1.m \in {"d", "e"} THEN s1 ELSE Step(s1, c)
      [] st.m = "c" ->
           IF IsWs(c) THEN st ELSE IF c = COLON THEN [st EXCEPT !.m = "v"] ELSE Reject(st)
      [] st.m = "a" ->
           IF IsWs(c) THEN st
           ELSE IF c = COMMA THEN [st EXCEPT !.m = IF TopIsObj(st) THEN "k" ELSE "v"]
           ELSE IF (c = RBR /\ TopIsObj(st)) \/ (c = RBK /\ TopIsArr(st)) THEN Close(st)
           ELSE Reject(st)
      [] OTHER -> st

\* a word at the top ends before the byte that ends it, everything else with its last byte
Feed(st, c) ==
    IF st.m \in {"d", "e"} THEN st
    ELSE LET s1 == Step(st, c) IN
         IF s1.m = "d" /\ st.stk = <<>> /\ (st.m = "w" \/ (st.m = "v" /\ c \in WordEnd))
         THEN s1
         ELSE [s1 EXCEPT !.n = st.n + 1]

\* the end of the text
Finish(st) ==
    IF st.m = "w" /\ st.stk = <<>> THEN EndWord(st)
    ELSE IF st.m = "d" THEN st
    ELSE Reject(st)

Run(text) == Finish(FoldLeft(Feed, PInit, text))
ParseOk(text) == Run(text).m = "d"
ParseVal(text) == Run(text).val

\* parsing the document at an offset of a text
RunAt(text, off) == Run(SubSeq(text, off + 1, Len(text)))

(* --- streams ----------------------------------------------------------- *)
RECURSIVE NextOpen(_, _)
\* the first offset from off on where a container may start, or Len(text)
NextOpen(text, off) ==
    IF off >= Len(text) THEN Len(text)
    ELSE IF text[off + 1] \in {LBR, LBK} THEN off
    ELSE NextOpen(text, off + 1)
RECURSIVE StreamFrom(_, _, _, _)
StreamFrom(text, off, docs, bad) ==
    LET o == NextOpen(text, off) IN
    IF o >= Len(text) THEN [docs |-> docs, bad |-> bad]
    ELSE LET r == RunAt(text, o) IN
         IF r.m = "d" THEN StreamFrom(text, o + r.n, Append(docs, r.val), bad)
         ELSE StreamFrom(text, o + 1, docs, bad + 1)
Stream(text) == StreamFrom(text, 0, <<>>, 0)

(* --- floats spelled with more digits than a double tells apart ----------- *)
RECURSIVE Blur(_)
Blur(v) ==
    CASE v[1] = "f" -> IF Len(v[3]) > 15 THEN Rounded(v, "d") ELSE v
      [] v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> Blur(v[2][i])])
      [] v[1] = "o" -> <<"o", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Blur(v[2][i][2])>>], v[3]>>
      [] OTHER -> v
=============================================================================
