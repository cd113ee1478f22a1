-------------------------------- MODULE JRfc --------------------------------
(***************************************************************************)
(* A strict recogniser of RFC 8259 texts (without regard to UTF-8), and    *)
(* the operation of deleting the white space outside its strings.          *)
(* State: [m, stk, x, ws, out]; stk holds "o"/"a"; m is one of             *)
(*  "v" value, "V" value or "]", "k" key, "K" key or "}", "s" string,      *)
(*  "S" key string, "c" colon, "a" after value, "-" after minus,           *)
(*  "0" after leading zero, "9" in integer digits, "." after point,        *)
(*  "f" in fraction, "E" after e, "+" after exponent sign, "x" in exponent,*)
(*  "l" in a literal, "e" broken                                           *)
(***************************************************************************)
EXTENDS JBytes

RInit == [m |-> "v", stk |-> <<>>, x |-> <<>>, ws |-> 0, out |-> <<>>]
Fail(st) == [st EXCEPT !.m = "e"]
Enter(st, k, m) == [st EXCEPT !.stk = Append(st.stk, k), !.m = m]
Leave(st) == [st EXCEPT !.stk = SubSeq(st.stk, 1, Len(st.stk) - 1), !.m = "a"]
Literals == {B("true"), B("false"), B("null")}
LitWith(h) == CHOOSE w \in Literals : Head(w) = h
LitHeads == {Head(w) : w \in Literals}

RValue(st, c) ==
    IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1]
    ELSE IF c = LBR THEN Enter(st, "o", "K")
    ELSE IF c = LBK THEN Enter(st, "a", "V")
    ELSE IF c = DQ THEN [st EXCEPT !.m = "s"]
    ELSE IF c = MINUS THEN [st EXCEPT !.m = "-"]
    ELSE IF c = 48 THEN [st EXCEPT !.m = "0"]
    ELSE IF IsDigit(c) THEN [st EXCEPT !.m = "9"]
    ELSE IF c \in LitHeads THEN [st EXCEPT !.m = "l", !.x = Tail(LitWith(c))]
    ELSE Fail(st)
RAfter(st, c) ==
    IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1, !.m = "a"]
    ELSE IF st.stk = <<>> THEN Fail(st)
    ELSE LET t == st.stk[Len(st.stk)] IN
         IF c = COMMA THEN [st EXCEPT !.m = IF t = "o" THEN "k" ELSE "v"]
         ELSE IF (c = RBR /\ t = "o") \/ (c = RBK /\ t = "a") THEN Leave(st)
         ELSE Fail(st)
RString(st, c) ==
    LET key == st.m = "S" IN
    IF st.x = <<>>
    THEN IF c = BSL THEN [st EXCEPT !.x = <<BSL>>]
         ELSE IF c = DQ THEN [st EXCEPT !.m = IF key THEN "c" ELSE "a"]
         ELSE IF c < 32 THEN Fail(st)
         ELSE st
    ELSE IF Len(st.x) = 1
    THEN IF c = 117 THEN [st EXCEPT !.x = <<BSL, c>>]
         ELSE IF c \in {DQ, BSL, 47, 98, 102, 110, 114, 116} THEN [st EXCEPT !.x = <<>>]
         ELSE Fail(st)
    ELSE IF ~IsHex(c) THEN Fail(st)
    ELSE IF Len(st.x) = 5 THEN [st EXCEPT !.x = <<>>]
    ELSE [st EXCEPT !.x = Append(@, c)]
RStep(st, c) ==
    CASE st.m = "v" -> RValue(st, c)
      [] st.m = "V" -> IF c = RBK THEN Leave(st) ELSE IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1] ELSE RValue(st, c)
      [] st.m = "K" -> IF c = RBR THEN Leave(st) ELSE IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1]
                       ELSE IF c = DQ THEN [st EXCEPT !.m = "S"] ELSE Fail(st)
      [] st.m = "k" -> IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1]
                       ELSE IF c = DQ THEN [st EXCEPT !.m = "S"] ELSE Fail(st)
      [] st.m \in {"s", "S"} -> RString(st, c)
      [] st.m = "c" -> IF IsWs(c) THEN [st EXCEPT !.ws = @ + 1]
                       ELSE IF c = COLON THEN [st EXCEPT !.m = "v"] ELSE Fail(st)
      [] st.m = "a" -> RAfter(st, c)
      [] st.m = "-" -> IF c = 48 THEN [st EXCEPT !.m = "0"] ELSE IF IsDigit(c) THEN [st EXCEPT !.m = "9"] ELSE Fail(st)
      [] st.m = "0" -> IF c = DOT THEN [st EXCEPT !.m = "."] ELSE IF c \in {101, 69} THEN [st EXCEPT !.m = "E"] ELSE RAfter(st, c)
      [] st.m = "9" -> IF IsDigit(c) THEN st ELSE IF c = DOT THEN [st EXCEPT !.m = "."]
                       ELSE IF c \in {101, 69} THEN [st EXCEPT !.m = "E"] ELSE RAfter(st, c)
      [] st.m = "." -> IF IsDigit(c) THEN [st EXCEPT !.m = "f"] ELSE Fail(st)
      [] st.m = "f" -> IF IsDigit(c) THEN st ELSE IF c \in {101, 69} THEN [st EXCEPT !.m = "E"] ELSE RAfter(st, c)
      [] st.m = "E" -> IF c \in {PLUS, MINUS} THEN [st EXCEPT !.m = "+"] ELSE IF IsDigit(c) THEN [st EXCEPT !.m = "x"] ELSE Fail(st)
      [] st.m = "+" -> IF IsDigit(c) THEN [st EXCEPT !.m = "x"] ELSE Fail(st)
      [] st.m = "x" -> IF IsDigit(c) THEN st ELSE RAfter(st, c)
      [] st.m = "l" -> IF c = Head(st.x) THEN (IF Len(st.x) = 1 THEN [st EXCEPT !.m = "a", !.x = <<>>] ELSE [st EXCEPT !.x = Tail(@)])
                       ELSE Fail(st)
      [] OTHER -> st
RRun(text) == FoldLeft(RStep, RInit, text)
RDone(st) == st.stk = <<>> /\ st.m \in {"a", "0", "9", "f", "x"}
RfcOk(text) == RDone(RRun(text))
\* a standard text without any white space outside its strings
RfcDense(text) == LET st == RRun(text) IN RDone(st) /\ st.ws = 0

\* delete white space outside double-quoted strings; state <<in string, after backslash, kept>>
SqStep(st, c) ==
    IF st[1] THEN (IF st[2] THEN <<TRUE, FALSE, Append(st[3], c)>>
                   ELSE <<c # DQ, c = BSL, Append(st[3], c)>>)
    ELSE IF IsWs(c) THEN st
    ELSE <<c = DQ, FALSE, Append(st[3], c)>>
Squeeze(text) == FoldLeft(SqStep, <<FALSE, FALSE, <<>>>>, text)[3]
=============================================================================
