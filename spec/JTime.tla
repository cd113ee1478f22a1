-------------------------------- MODULE JTime --------------------------------
(***************************************************************************)
(* Timestamps in text.  TimeOf(s) is <<"ok", day, second, nanosecond>> in  *)
(* UTC counted from 1970-01-01, <<"err">> when the text is no timestamp,   *)
(* or <<"?">> when this module does not say.                               *)
(***************************************************************************)
EXTENDS JBytes

\* white space in UTF-8, of one, two and three bytes
Wide == {<<c>> : c \in (9..13) \cup {32}} \cup {<<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 129, 159>>, <<227, 128, 128>>}
        \cup {<<226, 128, c>> : c \in (128..138) \cup {168, 169, 175}}
RECURSIVE TrimWide(_)
TrimWide(s) ==
    LET n == Len(s)
        front == {k \in 1..3 : k <= n /\ SubSeq(s, 1, k) \in Wide}
        back == {k \in 1..3 : k <= n /\ SubSeq(s, n - k + 1, n) \in Wide}
    IN IF front # {} THEN TrimWide(SubSeq(s, (CHOOSE k \in front : TRUE) + 1, n))
       ELSE IF back # {} THEN TrimWide(SubSeq(s, 1, n - (CHOOSE k \in back : TRUE)))
       ELSE s
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsWs(Head(s)) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))

\* shape p: 'd' stands for a digit, everything else for itself
Shape(s, p) == /\ Len(s) = Len(p)
               /\ \A i \in 1..Len(p) : IF p[i] = 100 THEN IsDigit(s[i]) ELSE s[i] = p[i]
Num(s, i, j) == NatOf(SubSeq(s, i, j))

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DateOk(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= MonthLen(y, m)
\* days since 1970-01-01 in the Gregorian calendar
DayOf(y0, m, d) ==
    LET y == (IF m <= 2 THEN y0 - 1 ELSE y0) + 400
        era == y \div 400
        yoe == y - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN (era - 1) * 146097 + doe - 719468
\* offset in minutes east of Greenwich
Instant(y, mo, d, h, mi, s, nano, off) ==
    IF ~DateOk(y, mo, d) \/ h > 23 \/ mi > 59 \/ s > 59 THEN <<"err">>
    ELSE LET sec == h * 3600 + mi * 60 + s - off * 60
             day == DayOf(y, mo, d)
         IN IF sec < 0 THEN <<"ok", day - 1, sec + 86400, nano>>
            ELSE IF sec >= 86400 THEN <<"ok", day + 1, sec - 86400, nano>>
            ELSE <<"ok", day, sec, nano>>

RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(Append(s, 48), n)

\* what follows the date and "T" or " ": <<h, mi, s, fraction digits, has seconds, zone text>> or <<>>
ClockParts(r) ==
    IF Len(r) < 5 \/ ~Shape(SubSeq(r, 1, 5), B("dd:dd")) THEN <<>>
    ELSE LET h == Num(r, 1, 2)
             mi == Num(r, 4, 5)
             hasS == Len(r) >= 8 /\ Shape(SubSeq(r, 6, 8), B(":dd"))
             r1 == SubSeq(r, IF hasS THEN 9 ELSE 6, Len(r))
             hasF == hasS /\ Len(r1) >= 2 /\ r1[1] = DOT
             fl == IF ~hasF THEN 0
                   ELSE LET nd == {i \in 2..Len(r1) : ~IsDigit(r1[i])}
                        IN (IF nd = {} THEN Len(r1) + 1 ELSE CHOOSE i \in nd : \A j \in nd : i <= j) - 2
             frac == IF hasF THEN SubSeq(r1, 2, 1 + fl) ELSE <<>>
             zone == IF hasF THEN SubSeq(r1, 2 + fl, Len(r1)) ELSE r1
         IN <<h, mi, IF hasS THEN Num(r, 7, 8) ELSE 0, frac, hasS, zone, hasF>>
ZoneOk(z) == z = B("Z") \/ Shape(z, B("+dd:dd")) \/ Shape(z, B("-dd:dd"))
ZoneOff(z) == IF z = B("Z") THEN 0
              ELSE (IF z[1] = MINUS THEN -1 ELSE 1) * (Num(z, 2, 3) * 60 + Num(z, 5, 6))

Months == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"), B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
MonthNo(s) == IF \E i \in 1..12 : Months[i] = s THEN CHOOSE i \in 1..12 : Months[i] = s ELSE 0
Days3 == {B("Mon"), B("Tue"), B("Wed"), B("Thu"), B("Fri"), B("Sat"), B("Sun")}
Utc == {B("UTC"), B("GMT")}

Iso(s) ==   \* begins with a date
    LET y == Num(s, 1, 4)  mo == Num(s, 6, 7)  d == Num(s, 9, 10) IN
    IF Len(s) = 10 THEN Instant(y, mo, d, 0, 0, 0, 0, 0)
    ELSE IF s[11] \notin {84, SP} THEN <<"?">>
    ELSE LET c == ClockParts(SubSeq(s, 12, Len(s))) IN
         IF c = <<>> THEN <<"?">>
         ELSE LET z == c[6]
                  n == Len(c[4])
                  nano == NatOf(PadTo(c[4], 9))
                  at(off) == Instant(y, mo, d, c[1], c[2], c[3], nano, off)
              IN IF ZoneOk(z)
                 THEN IF z # B("Z") /\ (Num(z, 2, 3) > 23 \/ Num(z, 5, 6) > 59) THEN <<"?">>
                      ELSE IF ~c[7] \/ (n >= 3 /\ n <= 9) THEN at(ZoneOff(z))
                      ELSE <<"?">>
                 ELSE IF z = <<>> /\ c[5]
                 THEN IF ~c[7] THEN at(0)
                      ELSE IF s[11] = SP /\ n >= 3 /\ n <= 9 THEN at(0)
                      ELSE IF s[11] = 84 /\ n = 6 THEN at(0)
                      ELSE <<"?">>
                 ELSE IF s[11] = SP /\ z = B(" +0000 UTC") /\ c[5] /\ ~c[7] THEN at(0)
                 ELSE <<"?">>

TimeOf(raw) ==
    LET s == TrimWide(raw)
        digits == Len(SelectSeq(s, IsDigit))
    IN
    IF digits < 5 THEN <<"err">>
    ELSE IF Len(s) >= 10 /\ Shape(SubSeq(s, 1, 10), B("dddd-dd-dd")) THEN Iso(s)
    ELSE IF Shape(s, B("dddddddddddddd"))
    THEN Instant(Num(s, 1, 4), Num(s, 5, 6), Num(s, 7, 8), Num(s, 9, 10), Num(s, 11, 12), Num(s, 13, 14), 0, 0)
    ELSE IF Shape(s, B("dddddddd")) THEN Instant(Num(s, 1, 4), Num(s, 5, 6), Num(s, 7, 8), 0, 0, 0, 0, 0)
    ELSE IF Shape(s, B("dd-dd-dd"))
    THEN LET yy == Num(s, 7, 8) IN
         Instant(IF yy >= 69 THEN 1900 + yy ELSE 2000 + yy, Num(s, 1, 2), Num(s, 4, 5), 0, 0, 0, 0, 0)
    \* Mon, 02 Jan 2006 15:04:05 GMT
    ELSE IF Len(s) = 29 /\ Shape(SubSeq(s, 4, 8), B(", dd ")) /\ Shape(SubSeq(s, 12, 26), B(" dddd dd:dd:dd "))
            /\ SubSeq(s, 1, 3) \in Days3 /\ MonthNo(SubSeq(s, 9, 11)) > 0 /\ SubSeq(s, 27, 29) \in Utc
    THEN Instant(Num(s, 13, 16), MonthNo(SubSeq(s, 9, 11)), Num(s, 6, 7), Num(s, 18, 19), Num(s, 21, 22), Num(s, 24, 25), 0, 0)
    \* Mon Jan 02 15:04:05 UTC 2006
    ELSE IF raw = s /\ Len(s) = 28 /\ Shape(SubSeq(s, 4, 4), B(" ")) /\ Shape(SubSeq(s, 8, 20), B(" dd dd:dd:dd "))
            /\ SubSeq(s, 1, 3) \in Days3 /\ MonthNo(SubSeq(s, 5, 7)) > 0 /\ SubSeq(s, 21, 23) \in Utc /\ Shape(SubSeq(s, 24, 28), B(" dddd"))
    THEN Instant(Num(s, 25, 28), MonthNo(SubSeq(s, 5, 7)), Num(s, 9, 10), Num(s, 12, 13), Num(s, 15, 16), Num(s, 18, 19), 0, 0)
    \* 02 Jan 06 15:04 UTC
    ELSE IF raw = s /\ Len(s) = 19 /\ Shape(SubSeq(s, 1, 3), B("dd ")) /\ MonthNo(SubSeq(s, 4, 6)) > 0
            /\ Shape(SubSeq(s, 7, 16), B(" dd dd:dd ")) /\ SubSeq(s, 17, 19) \in Utc
    THEN LET yy == Num(s, 8, 9) IN
         Instant(IF yy >= 69 THEN 1900 + yy ELSE 2000 + yy, MonthNo(SubSeq(s, 4, 6)), Num(s, 1, 2), Num(s, 11, 12), Num(s, 14, 15), 0, 0, 0)
    ELSE <<"?">>
=============================================================================
