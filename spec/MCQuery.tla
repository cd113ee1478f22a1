------------------------------- MODULE MCQuery -------------------------------
(***************************************************************************)
(* Profile "params": all sequences of parameters with names that nest,     *)
(* repeat, number and contradict each other in every way.  Profile "docs": *)
(* all small documents over awkward keys and leaves.  Checks the laws the  *)
(* properties state on the specification and emits every state.            *)
(***************************************************************************)
EXTENDS JQuery, Json
CONSTANTS Profile, Depth, Emit

VARIABLES x, depth
vars == <<x, depth>>

PNames == {B("a"), B("a.0"), B("a.1"), B("a.2"), B("a.0.b"), B("a.0.0"), B("a.b"), B("a.-1"), B("0"), B("a.01")}
ValueAt(i) == <<118, 48 + i>>

Leaves == {Null, Bool(TRUE), IntT(B("-7")), MkFloat(FALSE, B("25"), 1), Str(<<>>), Str(B("x&y=z;%41+ .")), Str(<<195, 169, 0, 255>>)}
DKeys == {B("a"), B("a b"), B("=&"), <<195, 169>>, B("007")}
TopKeys == DKeys \cup {B("0"), B("1")}
Odd == {B("0"), B("1"), B("a.b"), <<>>}
DSmall == {Str(B("x")), Arr(<<Null, IntT(B("1"))>>)}

Init == depth = 0 /\ x \in (IF Profile = "params" THEN {<<>>} ELSE Leaves \cup {EmptyObj, EmptyArr})
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ CASE Profile = "params" -> \E n \in PNames : x' = Append(x, <<n, ValueAt(Len(x))>>)
             [] OTHER -> \/ x' = Arr(<<x>>)
                         \/ \E s \in DSmall : x' = Arr(<<x, s>>) \/ x' = Arr(<<s, x>>)
                         \/ \E k \in DKeys \cup Odd : x' = Obj(<<<<k, x>>>>)
                         \/ \E k \in DKeys, j \in {B("b"), B("0")}, s \in DSmall : x' = Obj(Put(Put(<<>>, k, x), j, s))
Spec == Init /\ [][Next]_vars

\* --- parameters -------------------------------------------------------------
Swap(ps, i) == [ps EXCEPT ![i] = ps[i + 1], ![i + 1] = ps[i]]
RECURSIVE FollowIn(_, _)
FollowIn(v, segs) == IF segs = <<>> THEN v
                     ELSE IF IsO(v) /\ Has(v[2], segs[1]) THEN FollowIn(At(v[2], segs[1]), Tail(segs))
                     ELSE IF IsA(v) /\ AllDigits(segs[1]) /\ NatOf(segs[1]) < Len(v[2]) THEN FollowIn(v[2][NatOf(segs[1]) + 1], Tail(segs)) ELSE Bad
InsertionDenotes == Profile = "params" => Inserted(x) = DenotedBy(x)
\* exchanging neighbours of different names changes nothing; so no order does
Confluent == Profile = "params" => \A i \in 1..(Len(x) - 1) : x[i][1] # x[i + 1][1] => DenotedBy(Swap(x, i)) = DenotedBy(x)
InPlace == Profile = "params" /\ DenotedBy(x) # Bad =>
             \A i \in 1..Len(x) : LET vs == Values(x, x[i][1])
                                      at == FollowIn(DenotedBy(x), Segs(x[i][1]))
                                  IN IF Len(vs) = 1 THEN at = vs[1] ELSE at # Bad /\ IsA(at) /\ SubSeq(at[2], 1, Len(vs)) = vs
NothingElse == Profile = "params" /\ DenotedBy(x) # Bad => Len(ParamsOf(DenotedBy(x), <<>>)) = Len(x)
Spelled == Profile = "params" => Params(TextOf(x)) = <<TRUE, x>>
\* --- documents ----------------------------------------------------------------
RoundTrip == Profile = "docs" /\ IsO(x) /\ Holds(x, TRUE) => Denoted(TextOf(ParamsOf(x, <<>>))) = AsText(x)
Sane == Profile = "docs" => WellFormed(x)
Out == ~Emit \/ (Profile = "docs" /\ ~IsO(x)) \/ PrintT("CASE " \o ToJson(IF Profile = "params" THEN <<"t", TextOf(x)>> ELSE <<"d", x>>))
=============================================================================
