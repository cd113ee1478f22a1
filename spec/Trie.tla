--------------------------------- MODULE Trie ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the parser: the environment feeds every       *)
(* sequence of up to MaxLen tokens to the automaton of JParse, and in      *)
(* every state the outcome the automaton would give if the text ended      *)
(* there is compared with what the real parser returned for that text.     *)
(* Texts are numbered as in a heap: the children of text i are             *)
(* i * Len(Tokens) + 1 .. i * Len(Tokens) + Len(Tokens).                   *)
(* Line i+1 of OutFile is <<outcome, position>> of text i.                 *)
(***************************************************************************)
EXTENDS JParse, Json
R == INSTANCE JRfc
CONSTANTS TokFile, OutFile, MaxLen, Mode
Tokens == ndJsonDeserialize(TokFile)
Outs == ndJsonDeserialize(OutFile)
T == Len(Tokens)

VARIABLES st, rst, idx, len, bytes
vars == <<st, rst, idx, len, bytes>>
Init == st = PInit /\ rst = R!RInit /\ idx = 0 /\ len = 0 /\ bytes = 0
Next == /\ len < MaxLen
        /\ \E j \in 1..T :
              /\ st' = FoldLeft(Feed, st, Tokens[j])
              /\ rst' = FoldLeft(R!RStep, rst, Tokens[j])
              /\ idx' = idx * T + j
              /\ len' = len + 1
              /\ bytes' = bytes + Len(Tokens[j])
Spec == Init /\ [][Next]_vars

\* laws of the automaton itself
TypeOk == /\ st.m \in {"v", "k", "q", "w", "c", "a", "d", "e"}
          /\ st.n <= bytes
          /\ (st.m = "d") => (st.stk = <<>> /\ WellFormed(st.val))
          /\ (st.m \in {"k", "c", "a"}) => st.stk # <<>>
\* every standard text is accepted, and consumed whole
RfcAccepted == (Mode = "rfc" /\ R!RDone(rst)) => (Finish(st).m = "d")
Settled == [][(st.m \in {"d", "e"}) => (st' = st)]_vars

Agrees(f, out) == IF f.m = "d" THEN out[1] = "ok" /\ Same(Blur(out[2]), Blur(f.val)) ELSE out[1] = "err"
Clauses ==
    LET o == Outs[idx + 1]
        out == o[1]
        f == Finish(st)
    IN CASE Mode = "total" -> {<<"value-or-error", out[1] \in {"ok", "err"}>>,
                               <<"position-inside", o[2] >= 0 /\ o[2] <= bytes>>}
         [] Mode = "rfc" -> {<<"standard-text-decoded", R!RDone(rst) => Agrees(f, out)>>}
         [] Mode = "lenient" -> {<<"rejected", f.m # "d" => out[1] = "err">>,
                                 <<"one-reading", (f.m = "d" /\ ~R!RDone(rst)) => Agrees(f, out)>>}
         [] Mode = "offset" -> {<<"position-after", f.m = "d" => out[1] = "ok" /\ o[2] = f.n>>,
                                <<"document", Agrees(f, out)>>,
                                <<"position-inside", o[2] >= 0 /\ o[2] <= bytes>>}
Bad == {c[1] : c \in {x \in Clauses : ~x[2]}}
TrieOk == Bad = {} \/ PrintT("MISMATCH " \o ToJson(<<idx, SetToSeq(Bad)>>))
=============================================================================
