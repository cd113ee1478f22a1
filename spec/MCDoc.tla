-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* All documents up to a size over a small vocabulary of awkward leaves    *)
(* and keys.  Checks on the specification itself that rendering and        *)
(* reading are inverse, and hands every document to the driver, which      *)
(* builds it with the real library.                                        *)
(***************************************************************************)
EXTENDS JParse, JRender, Json
R == INSTANCE JRfc
CONSTANTS Depth, Rich, Emit

Leaves == IF ~Rich THEN {Null, IntT(B("-7")), MkFloat(FALSE, B("25"), 1), Str(<<DQ, BSL, 10, 1>>), Str(B("true"))} ELSE
          {Null, Bool(TRUE), Bool(FALSE), IntT(B("0")), IntT(B("-9223372036854775808")),
           MkFloat(TRUE, B("15"), 1), MkFloat(FALSE, B("1"), 22), MkFloat(FALSE, B("1"), -6), MkFloat(FALSE, B("2"), 1),
           Str(<<>>), Str(B("null")), Str(B("1")), Str(<<DQ, BSL, 10, 1>>), Str(<<195, 169, 240, 159, 152, 128>>), Str(<<255>>)}
Keys == IF ~Rich THEN {<<>>, B("a")} ELSE {<<>>, B("a"), B("A"), B("aa"), <<DQ>>, B("1"), <<255>>}
Small == IF ~Rich THEN {Str(B("x"))} ELSE {Null, Str(B("x")), EmptyArr, EmptyObj}

VARIABLES doc, depth
Init == doc \in Leaves \cup {EmptyArr, EmptyObj} /\ depth = 0
Grow == /\ depth < Depth /\ depth' = depth + 1
        /\ \/ doc' = Arr(<<doc>>)
           \/ \E x \in Small : doc' = Arr(<<doc, x>>) \/ doc' = Arr(<<x, doc>>)
           \/ \E k \in Keys : doc' = Obj(<<<<k, doc>>>>)
           \/ \E j, k \in Keys, x \in Small : j # k /\ doc' = Obj(Put(Put(<<>>, k, doc), j, x))
Spec == Init /\ [][Grow]_<<doc, depth>>

RoundTrip == LET t == Render(doc)
                 st == Run(t)
             IN st.m = "d" /\ st.val = NumNorm(doc) /\ st.n = Len(t) /\ st.asc /\ Render(st.val) = t
PrettyToo == LET p == Pretty(doc, 0) IN ParseVal(p) = NumNorm(doc) /\ R!Squeeze(p) = Render(doc)
Standard == R!RfcDense(Render(doc)) /\ R!RfcOk(Pretty(doc, 0))
\* a proper prefix of an object, array or string is no text
PrefixesRejected == doc[1] \in {"a", "o", "s"} => \A i \in 0..(Len(Render(doc)) - 1) : ~ParseOk(SubSeq(Render(doc), 1, i))
Sane == WellFormed(doc) /\ Same(doc, doc)
Out == ~Emit \/ PrintT("CASE " \o ToJson(doc))
=============================================================================
