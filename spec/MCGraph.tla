------------------------------- MODULE MCGraph --------------------------------
(***************************************************************************)
(* How a graph becomes text and text a graph again, step by step, on every *)
(* small graph; and these graphs as cases for the driver.                  *)
(*                                                                         *)
(* Writing keeps a trace of the nodes it is in or that a reference may     *)
(* still name: <<node, uses>>.  Entering a node that is on the trace       *)
(* writes a reference, and uses it and all that were entered after it;     *)
(* leaving a node takes the last node off the trace if it has one use.     *)
(* The text is a sequence of tokens <<"open", node>>, <<"close">> and      *)
(* <<"ref", node>> ("nil" where there is nothing).                         *)
(* An object and a reference to it elsewhere in the text may then change   *)
(* places, some times: the text still says the same.                       *)
(* Reading builds new nodes; an id is known as soon as its object opens,   *)
(* and what refers to it before that waits for it.                         *)
(***************************************************************************)
EXTENDS JGraph, Json
CONSTANTS Nodes, Ptrs, Lists, Moves, Emit
CONSTANT Wrong  \* "", or what the writer or reader does wrong: "counts", "waits", "forgets"

Name == <<"a", "b">>
VARIABLES g, phase, stack, trace, text, pos, built, where, root, moved
vars == <<g, phase, stack, trace, text, pos, built, where, root, moved>>

\* --- graphs ------------------------------------------------------------------
OneOf(f) == SelectSeq([k \in 1..Ptrs |-> <<Name[k], f[k]>>], LAMBDA p : p[2] # 0)
NodeSet == {[t |-> "n", v |-> <<48>>, one |-> OneOf(f), l |-> l, m |-> <<>>] : f \in [1..Ptrs -> 0..Nodes], l \in IF Lists = 0 THEN {<<>>} ELSE {<<>>} \cup [1..Lists -> 1..Nodes]}
Graphs == {[i \in 1..Nodes |-> [x[i] EXCEPT !.v = <<48 + i>>]] : x \in [1..Nodes -> NodeSet]}
Whole(x) == {1} \cup After(x, 1) = 1..Nodes \/ Nodes = 1

Kids(n) == [k \in 1..Ptrs |-> LET r == SelectSeq(n.one, LAMBDA p : p[1] = Name[k]) IN IF r = <<>> THEN 0 ELSE r[1][2]] \o n.l

Init == /\ g \in Graphs
        /\ Whole(g) = TRUE
        /\ phase = "write" /\ stack = <<<<1, 0>>>> /\ trace = <<<<1, 1>>>> /\ text = <<<<"open", 1>>>>
        /\ pos = 0 /\ built = <<>> /\ where = [i \in 1..Nodes |-> 0] /\ root = 0 /\ moved = 0
        /\ (Emit => PrintT("CASE " \o ToJson([g |-> g]))) = TRUE

Top == stack[Len(stack)]
OnTrace(i) == SelectInSeq(trace, LAMBDA p : p[1] = i)
\* the next pointer of the node being written
Put1 == /\ phase = "write" /\ stack # <<>> /\ Top[2] < Len(Kids(g[Top[1]]))
        /\ LET k == Top[2] + 1
               i == Kids(g[Top[1]])[k]
               st1 == [stack EXCEPT ![Len(stack)] = <<@[1], k>>]
           IN IF i = 0 THEN /\ stack' = st1 /\ text' = Append(text, <<"nil">>) /\ UNCHANGED trace
              ELSE LET at == OnTrace(i) IN
                   IF at # 0 THEN /\ stack' = st1 /\ text' = Append(text, <<"ref", i>>)
                                  /\ trace' = [j \in 1..Len(trace) |-> IF j = at \/ (j > at /\ Wrong # "counts") THEN <<trace[j][1], trace[j][2] + 1>> ELSE trace[j]]
                   ELSE /\ stack' = Append(st1, <<i, 0>>) /\ text' = Append(text, <<"open", i>>) /\ trace' = Append(trace, <<i, 1>>)
        /\ UNCHANGED <<g, phase, pos, built, where, root, moved>>
Leave == /\ phase = "write" /\ stack # <<>> /\ Top[2] = Len(Kids(g[Top[1]]))
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ text' = Append(text, <<"close">>)
         /\ trace' = IF trace[Len(trace)][2] = 1 THEN SubSeq(trace, 1, Len(trace) - 1) ELSE trace
         /\ UNCHANGED <<g, phase, pos, built, where, root, moved>>
Written == /\ phase = "write" /\ stack = <<>>
           /\ phase' = "read" /\ pos' = 1 /\ UNCHANGED <<g, stack, trace, text, built, where, root, moved>>
\* where the object that opens at i closes
Closes(i) == CHOOSE j \in i..Len(text) :
                LET depth(k) == Cardinality({n \in i..k : text[n][1] = "open"}) - Cardinality({n \in i..k : text[n][1] = "close"})
                IN depth(j) = 0 /\ \A k \in i..(j - 1) : depth(k) > 0
Move(r) == /\ text[r][1] = "ref"
           /\ LET i == CHOOSE k \in 1..Len(text) : text[k] = <<"open", text[r][2]>>
                  j == Closes(i)
                  obj == SubSeq(text, i, j)
              IN /\ (r < i \/ r > j) = TRUE
                 /\ text' = IF r > j THEN SubSeq(text, 1, i - 1) \o <<text[r]>> \o SubSeq(text, j + 1, r - 1) \o obj \o SubSeq(text, r + 1, Len(text))
                            ELSE SubSeq(text, 1, r - 1) \o obj \o SubSeq(text, r + 1, i - 1) \o <<text[r]>> \o SubSeq(text, j + 1, Len(text))
Moved == /\ phase = "read" /\ pos = 1 /\ moved < Moves
         /\ \E r \in 1..Len(text) : Move(r)
         /\ moved' = moved + 1
         /\ UNCHANGED <<g, phase, stack, trace, pos, built, where, root>>
\* what takes the value just read: the next empty place of the node being read
Fill(b, s, x) == IF s = <<>> THEN b ELSE [b EXCEPT ![s[Len(s)]] = Append(@, x)]
Read == /\ phase = "read" /\ pos <= Len(text)
        /\ pos' = pos + 1
        /\ LET t == text[pos] IN
           CASE t[1] = "open" -> LET n == Len(built) + 1 IN
                                 /\ built' = Append([k \in 1..Len(built) |-> LET b == Fill(built, stack, n)[k] IN
                                                       [x \in 1..Len(b) |-> IF x > 1 /\ b[x] = 0 - t[2] /\ Wrong # "waits" THEN n ELSE b[x]]], <<t[2]>>)
                                 /\ stack' = Append(stack, n)
                                 /\ where' = [where EXCEPT ![t[2]] = IF OnTrace(t[2]) # 0 /\ Wrong # "forgets" THEN n ELSE @]
                                 /\ root' = IF root = 0 THEN n ELSE root
             [] t[1] = "close" -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<built, where, root>>
             [] t[1] = "ref" -> built' = Fill(built, stack, IF where[t[2]] = 0 THEN 0 - t[2] ELSE where[t[2]]) /\ UNCHANGED <<stack, where, root>>
             [] OTHER -> built' = Fill(built, stack, 0) /\ UNCHANGED <<stack, where, root>>
        /\ UNCHANGED <<g, phase, trace, text, moved>>
Done == phase = "read" /\ pos > Len(text)
Next == Put1 \/ Leave \/ Written \/ Moved \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* built[n] is <<what node it shows, its pointers ...>>
NodeOf(n) == LET b == built[n] IN
             [t |-> "n", v |-> g[b[1]].v, one |-> SelectSeq([k \in 1..Ptrs |-> <<Name[k], b[k + 1]>>], LAMBDA p : p[2] # 0), l |-> SubSeq(b, Ptrs + 2, Len(b)), m |-> <<>>]
New == [n \in 1..Len(built) |-> NodeOf(n)]

\* --- properties ------------------------------------------------------------------
TextOk == phase = "read" /\ pos = 1 /\ moved = 0 =>
          \A i \in 1..Len(text) : text[i][1] = "ref" =>
             /\ \E j \in 1..(i - 1) : text[j] = <<"open", text[i][2]>>             \* named before it is referred to
             /\ Cardinality({j \in 1..Len(text) : text[j] = <<"open", text[i][2]>>}) = 1
\* the last node of the trace that has been left has more than one use, so that leaving takes off only oneself
TraceInv == phase = "write" /\ stack # <<>> /\ trace # <<>> /\ trace[Len(trace)][2] = 1 => trace[Len(trace)][1] = Top[1]
\* a node on a loop is written once
LoopsOnce == phase = "read" /\ pos = 1 =>
             \A i \in 1..Nodes : OnCycle(g, i) => Cardinality({j \in 1..Len(text) : text[j] = <<"open", i>>}) = 1
\* nothing waits in the end, wherever the references stood
AllFound == Done => \A n \in 1..Len(built) : \A x \in 2..Len(built[n]) : built[n][x] >= 0
Restored == Done => LET ps == PathPairs(g, 1, New, root) IN SameValues(g, New, ps) /\ SameLoops(g, New, ps)
\* marshalling and reading come to an end
Ends == <>Done
=============================================================================
