------------------------------ MODULE JRender -------------------------------
(***************************************************************************)
(* The compact and the indented rendering, and the quoting of strings.     *)
(***************************************************************************)
EXTENDS JValue

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
QuoteByte(c) ==
    CASE c = DQ -> <<BSL, DQ>>
      [] c = BSL -> <<BSL, BSL>>
      [] c = 8 -> <<BSL, 98>>
      [] c = 12 -> <<BSL, 102>>
      [] c = LF -> <<BSL, 110>>
      [] c = CR -> <<BSL, 114>>
      [] c = TAB -> <<BSL, 116>>
      [] c < 32 /\ c \notin {8, 9, 10, 12, 13} -> <<BSL, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
      [] OTHER -> <<c>>
Quote(s) == Append(FoldLeft(LAMBDA acc, c : acc \o QuoteByte(c), <<DQ>>, s), DQ)

FloatText(v) ==
    LET d == v[3]
        e == v[4]
        body == IF d = <<>> THEN <<48>>
                ELSE IF e <= 0 THEN <<48, DOT>> \o Zeros(-e) \o d
                ELSE IF e >= Len(d) THEN d \o Zeros(e - Len(d))
                ELSE SubSeq(d, 1, e) \o <<DOT>> \o SubSeq(d, e + 1, Len(d))
    IN IF v[2] THEN <<MINUS>> \o body ELSE body

TNull == B("null")
TTrue == B("true")
TFalse == B("false")
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA acc, s : acc \o sep \o s, Head(ss), Tail(ss))
NidText == B("\"___jnid_\":")

RECURSIVE Render(_)
Render(v) ==
    CASE v[1] = "n" -> TNull
      [] v[1] = "b" -> IF v[2] THEN TTrue ELSE TFalse
      [] v[1] = "i" -> v[2]
      [] v[1] = "f" -> FloatText(v)
      [] v[1] = "s" -> Quote(v[2])
      [] v[1] = "r" -> <<LT>> \o v[2] \o <<GT>>
      [] v[1] = "a" -> <<LBK>> \o Join([i \in 1..Len(v[2]) |-> Render(v[2][i])], <<COMMA>>) \o <<RBK>>
      [] v[1] = "o" ->
           LET ms == [i \in 1..Len(v[2]) |-> Quote(v[2][i][1]) \o <<COLON>> \o Render(v[2][i][2])]
               id == IF v[3] = <<>> THEN <<>> ELSE <<NidText \o v[3]>>
           IN <<LBR>> \o Join(id \o ms, <<COMMA>>) \o <<RBR>>

Spaces(n) == [i \in 1..n |-> SP]
RECURSIVE Pretty(_, _)
\* the rendering starts with its own indentation of 2*level blanks
Pretty(v, level) ==
    LET tab == Spaces(2 * level) IN
    CASE v[1] = "a" ->
           IF v[2] = <<>> THEN tab \o <<LBK, RBK>>
           ELSE tab \o <<LBK>>
                \o Join([i \in 1..Len(v[2]) |-> <<LF>> \o Pretty(v[2][i], level + 1)], <<COMMA>>)
                \o <<LF>> \o tab \o <<RBK>>
      [] v[1] = "o" ->
           LET ms == [i \in 1..Len(v[2]) |->
                        LET x == v[2][i][2] IN
                        <<LF>> \o tab \o <<SP, SP>> \o Quote(v[2][i][1]) \o <<COLON>> \o
                        (IF x[1] \in {"a", "o"} THEN <<LF>> \o Pretty(x, level + 2) ELSE <<SP>> \o Render(x))]
               id == IF v[3] = <<>> THEN <<>> ELSE <<<<LF>> \o tab \o <<SP, SP>> \o NidText \o <<SP>> \o v[3]>>
               all == id \o ms
           IN IF all = <<>> THEN tab \o <<LBR, RBR>>
              ELSE tab \o <<LBR>> \o Join(all, <<COMMA>>) \o <<LF>> \o tab \o <<RBR>>
      [] OTHER -> tab \o Render(v)
=============================================================================
