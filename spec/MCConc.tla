-------------------------------- MODULE MCConc --------------------------------
(***************************************************************************)
(* Goroutines that use the library at the same time.                       *)
(*                                                                         *)
(* Memory is cells: the nodes of one shared document, the shared constants *)
(* null, true and false, a Go value that is only read, and the cells each  *)
(* goroutine makes for itself.  A call is a sequence of accesses, done one *)
(* at a time and interleaved with those of the other goroutines in every   *)
(* way; its answer is what it read.                                        *)
(*                                                                         *)
(* The library's discipline is: a call writes only into cells its own      *)
(* goroutine made.  It follows that no two goroutines are ever about to    *)
(* touch one cell with a write among the two (NoRace), that every call     *)
(* answers as it would alone (AsAlone), and that the shared cells stay as  *)
(* they were (Unchanged).  With Hidden, one kind of call keeps a note in a *)
(* shared cell, as a lazily filled cache would; TLC must then find all     *)
(* three broken, which shows that they say something.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Threads, Calls, Hidden, Emit

Kinds == {"render", "lookup", "copy", "edit", "compare", "convert", "unmarshal", "parse", "values", "own"}
\* cells: the document is root 1 with 2, 3 below it; 4 below 3; 5 is a constant it holds; 6 a Go value; the rest is private
Doc == <<1, 2, 3, 4, 5>>
Mine(g, i) == 10 * g + i
R(c) == <<"r", c>>
W(c) == <<"w", c>>
Reads(cs) == [i \in 1..Len(cs) |-> R(cs[i])]
\* the accesses of a call of goroutine g
Plan(k, g) ==
    LET hide == IF Hidden = k THEN <<W(1)>> ELSE <<>> IN
    hide \o
    CASE k = "render" -> Reads(Doc)
      [] k = "lookup" -> Reads(<<1, 3, 4>>)
      [] k = "copy" -> <<R(1), W(Mine(g, 1)), R(3), W(Mine(g, 2)), R(4)>>
      [] k = "edit" -> <<R(1), W(Mine(g, 1)), R(5), W(Mine(g, 1))>>
      [] k = "compare" -> Reads(<<1, 1, 3, 4>>)
      [] k = "convert" -> <<R(1), R(5), W(Mine(g, 3))>>
      [] k = "unmarshal" -> <<R(1), W(Mine(g, 4)), R(3), W(Mine(g, 4))>>
      [] k = "parse" -> <<W(Mine(g, 5)), R(Mine(g, 5))>>
      [] k = "values" -> <<R(6), W(Mine(g, 6))>>
      [] k = "own" -> <<W(Mine(g, 7)), R(5), W(Mine(g, 7)), R(Mine(g, 7))>>

G == 1..Threads
Cells == 1..6 \cup {Mine(g, i) : g \in G, i \in 1..7}
VARIABLES todo,   \* of each goroutine: the calls it has yet to begin
          plan,   \* the accesses left of the call it is in
          said,   \* what that call has read so far
          mem,    \* how often each cell was written
          plans   \* the calls chosen at the start
vars == <<todo, plan, said, mem, plans>>
Rank(k) == CHOOSE n \in 1..10 : <<"render", "lookup", "copy", "edit", "compare", "convert", "unmarshal", "parse", "values", "own">>[n] = k
Seqs == UNION {[1..n -> Kinds] : n \in 1..Calls}
RECURSIVE SeqLeq(_, _)
SeqLeq(s, t) == s = <<>> \/ (t # <<>> /\ (Rank(s[1]) < Rank(t[1]) \/ (s[1] = t[1] /\ SeqLeq(Tail(s), Tail(t)))))
Init == /\ plans \in {p \in [G -> Seqs] : \A g \in G : (g < Threads => (SeqLeq(p[g], p[g + 1]) = TRUE))}   \* goroutines are interchangeable
        /\ todo = plans
        /\ plan = [g \in G |-> <<>>]
        /\ said = [g \in G |-> <<>>]
        /\ mem = [c \in Cells |-> 0]
Begin(g) == /\ plan[g] = <<>> /\ todo[g] # <<>>
            /\ plan' = [plan EXCEPT ![g] = Plan(Head(todo[g]), g)]
            /\ todo' = [todo EXCEPT ![g] = Tail(@)]
            /\ said' = [said EXCEPT ![g] = <<>>]
            /\ UNCHANGED <<mem, plans>>
Access(g) == /\ plan[g] # <<>>
             /\ LET a == Head(plan[g]) IN
                IF a[1] = "r" THEN said' = [said EXCEPT ![g] = Append(@, IF a[2] <= 6 THEN mem[a[2]] ELSE 0)] /\ mem' = mem
                ELSE mem' = [mem EXCEPT ![a[2]] = @ + 1] /\ said' = said
             /\ plan' = [plan EXCEPT ![g] = Tail(@)]
             /\ UNCHANGED <<todo, plans>>
Next == \E g \in G : Begin(g) \/ Access(g)
Spec == Init /\ [][Next]_vars /\ \A g \in G : WF_vars(Begin(g) \/ Access(g))

NoRace == \A g, h \in G : (g # h /\ plan[g] # <<>> /\ plan[h] # <<>>) =>
            LET x == Head(plan[g])
                y == Head(plan[h])
            IN x[2] = y[2] => x[1] = "r" /\ y[1] = "r"
AsAlone == \A g \in G : \A i \in 1..Len(said[g]) : said[g][i] = 0
Unchanged == \A c \in 1..6 : mem[c] = 0
Ends == <>(\A g \in G : todo[g] = <<>> /\ plan[g] = <<>>)
Out == ~Emit \/ todo # plans \/ (\E g \in G : plan[g] # <<>>) \/ PrintT("CASE " \o ToJson(plans))
===============================================================================
