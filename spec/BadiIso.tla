------------------------------ MODULE BadiIso ------------------------------
(***************************************************************************)
(* The ISO texts of dates, times and offsets: how they are written, and a  *)
(* recogniser that says of any text whether it must be read (and as what), *)
(* must be refused, or is one the documentation leaves open.               *)
(***************************************************************************)
EXTENDS Badi, BadiText, BadiTime

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
CharAt(t, i) == SubSeq(t, i, i)
IsDigit(c) == c \in DOMAIN Digits
Part(t, i, j) == IF j < i THEN "" ELSE SubSeq(t, i, j)
Tail1(t, i) == Part(t, i, Len(t))
RECURSIVE DShape(_), Num(_), Find(_, _, _)
\* every digit becomes d
DShape(t) == IF Len(t) = 0 THEN "" ELSE (IF IsDigit(CharAt(t, 1)) THEN "d" ELSE CharAt(t, 1)) \o DShape(Tail1(t, 2))
\* value of a text of at most nine digits
Num(t) == IF Len(t) = 0 THEN 0 ELSE 10 * Num(Part(t, 1, Len(t) - 1)) + Digits[CharAt(t, Len(t))]
NumAt(t, i, j) == Num(SubSeq(t, i, j))
\* first place from i on that holds one of the characters
Find(t, cs, i) == IF i > Len(t) THEN 0 ELSE IF CharAt(t, i) \in cs THEN i ELSE Find(t, cs, i + 1)

(***************************** writing *****************************)
DateText(y, m, d) == YearIso(y) \o "-" \o P2(m) \o "-" \o P2(d)
ClockText(h, mi, s) == P2(h) \o ":" \o P2(mi) \o ":" \o P2(s)
TimeText(h, mi, s, us) == ClockText(h, mi, s) \o (IF us = 0 THEN "" ELSE "." \o Pad(us, 6))
LongText(y, m, d) ==
  LET k == Kull(y) IN (IF k < 0 THEN "-" \o P2(-k) ELSE P2(k)) \o "-" \o P2(Vahid(y)) \o "-" \o P2(YearIn(y)) \o "-" \o P2(m) \o "-" \o P2(d)

(***************************** reading *****************************)
OPEN == <<"open">>
BAD == <<"bad">>
DateOr(y, m, d) == IF ValidDate(y, m, d) THEN <<"date", y, m, d>> ELSE BAD
\* week dates also carry the week, for the recognised deviations
\* (weeks next to the years of the ordinal deviation are left open)
WeekOr(y, w, d) == IF \E k \in {-1, 0, 1} : (y + k) \in {-1796, -1792, -1788} THEN OPEN
                   ELSE IF ~InYears(y) \/ d < 1 \/ d > 7 \/ w < 1 \/ w > WeeksIn(y) THEN BAD
                   ELSE LET o == FromIso(y, w, d) IN IF ValidOrd(o) THEN <<"week", y, w, d>> ELSE BAD
YDayOr(y, k) == IF InYears(y) /\ k >= 1 /\ k <= YearDays(y) THEN <<"date">> \o FromYDay(y, k) ELSE BAD
\* t without its sign; neg; short: the three-digit year of a negative date
ReadPlain(t, neg) ==
  LET s == DShape(t)
      Y(i) == IF neg THEN -NumAt(t, 1, i) ELSE NumAt(t, 1, i)
  IN CASE s = "dddd-dd-dd" -> DateOr(Y(4), NumAt(t, 6, 7), NumAt(t, 9, 10))
       [] s = "dddddddd"   -> DateOr(Y(4), NumAt(t, 5, 6), NumAt(t, 7, 8))
       [] s = "dddd-Wdd-d" -> WeekOr(Y(4), NumAt(t, 7, 8), NumAt(t, 10, 10))
       [] s = "ddddWddd"   -> WeekOr(Y(4), NumAt(t, 6, 7), NumAt(t, 8, 8))
       [] s = "dddd-ddd"   -> YDayOr(Y(4), NumAt(t, 6, 8))
       [] s = "ddddddd"    -> YDayOr(Y(4), NumAt(t, 5, 7))
       [] s \in {"dddd-dd", "dddd-Wdd"} -> OPEN
       [] neg /\ s = "ddd-dd-dd"  -> DateOr(Y(3), NumAt(t, 5, 6), NumAt(t, 8, 9))
       [] neg /\ s = "ddd-Wdd-d"  -> WeekOr(Y(3), NumAt(t, 6, 7), NumAt(t, 9, 9))
       [] neg /\ s = "ddd-ddd"    -> YDayOr(Y(3), NumAt(t, 5, 7))
       [] neg /\ s \in {"ddd-dd", "ddd-Wdd"} -> OPEN
       [] OTHER -> BAD
ReadDate(t) == IF Find(t, {"{"}, 1) # 0 THEN OPEN           \* characters outside ASCII
               ELSE IF Len(t) > 1 /\ CharAt(t, 1) = "-" THEN ReadPlain(Tail1(t, 2), TRUE)
               ELSE ReadPlain(t, FALSE)
TimeOr(h, mi, s, us) == IF h <= 23 /\ mi <= 59 /\ s <= 59 THEN <<"time", h, mi, s, us>>
                        ELSE IF h > 24 \/ mi > 59 \/ s > 61 THEN BAD ELSE OPEN
\* a decimal fraction f (a text of digits) of the last of the fields h, mi, s, which is
\* unit seconds long.  A sixth part 1: a fraction of an hour, which may be a microsecond short
Ten == <<10, 100, 1000, 10000, 100000, 1000000>>
FracOr(h, mi, s, unit, f) ==
  IF Len(f) > (IF unit = 3600 THEN 5 ELSE 6) \/ Len(f) = 0 \/ \E i \in 1 .. Len(f) : ~IsDigit(CharAt(f, i)) THEN OPEN
  ELSE LET p == Ten[Len(f)]
           n == unit * Num(f)
           c == n \div p
           q == TimeOr(h, mi + (c \div 60), s + (c % 60), (n % p) * (1000000 \div p))
       IN IF unit = 3600 /\ n > 0 THEN q \o <<1>> ELSE q
ReadFraction(t, i) ==
  LET s == DShape(Part(t, 1, i - 1))
      f == Tail1(t, i + 1)
  IN CASE s = "dd" -> FracOr(NumAt(t, 1, 2), 0, 0, 3600, f)
       [] s = "dd:dd" -> FracOr(NumAt(t, 1, 2), NumAt(t, 4, 5), 0, 60, f)
       [] s = "dddd" -> FracOr(NumAt(t, 1, 2), NumAt(t, 3, 4), 0, 60, f)
       [] s = "dd:dd:dd" -> FracOr(NumAt(t, 1, 2), NumAt(t, 4, 5), NumAt(t, 7, 8), 1, f)
       [] s = "dddddd" -> FracOr(NumAt(t, 1, 2), NumAt(t, 3, 4), NumAt(t, 5, 6), 1, f)
       [] OTHER -> OPEN
\* the part after the separator
ReadTime(t) ==
  LET s == DShape(t) IN
  CASE s = "dd" -> TimeOr(NumAt(t, 1, 2), 0, 0, 0)
    [] s = "dd:dd" -> TimeOr(NumAt(t, 1, 2), NumAt(t, 4, 5), 0, 0)
    [] s = "dddd" -> TimeOr(NumAt(t, 1, 2), NumAt(t, 3, 4), 0, 0)
    [] s = "dd:dd:dd" -> TimeOr(NumAt(t, 1, 2), NumAt(t, 4, 5), NumAt(t, 7, 8), 0)
    [] s = "dddddd" -> TimeOr(NumAt(t, 1, 2), NumAt(t, 3, 4), NumAt(t, 5, 6), 0)
    [] Find(s, {"."}, 1) # 0 -> ReadFraction(t, Find(s, {"."}, 1))
    [] Find(s, {":"}, 1) # 0 \/ Len(s) # 0 -> BAD
    [] OTHER -> OPEN
OffOr(sgn, h, mi) == IF h > 24 \/ (h = 24 /\ mi >= 0) THEN BAD
                     ELSE IF mi > 59 THEN OPEN ELSE <<"off", sgn * (60 * h + mi)>>
\* offset in minutes
ReadOff(t) ==
  LET s == DShape(t) IN
  CASE t = "" -> <<"naive">>
    [] t = "Z" -> <<"off", 0>>
    [] s = "+dd:dd" -> OffOr(1, NumAt(t, 2, 3), NumAt(t, 5, 6))
    [] s = "-dd:dd" -> OffOr(-1, NumAt(t, 2, 3), NumAt(t, 5, 6))
    [] s = "+dd" -> OffOr(1, NumAt(t, 2, 3), 0)
    [] s = "-dd" -> OffOr(-1, NumAt(t, 2, 3), 0)
    [] CharAt(s, 1) = "B" -> OPEN
    [] OTHER -> BAD
\* a date with time and offset: <<"ok", date, time, offset>>, OPEN or BAD
ReadDateTime(t) ==
  IF Find(t, {"{"}, 1) # 0 THEN OPEN
  ELSE LET i == Find(t, {"T", " "}, 1) IN
  IF i = 0 THEN
    LET d == ReadDate(t) IN
    IF d[1] \in {"date", "week"} THEN <<"ok", d, <<"time", 0, 0, 0, 0>>, <<"naive">>>>
    ELSE IF Find(t, {"Z", "B", "+", "-"}, 2) # 0 \/ d = OPEN THEN OPEN ELSE BAD
  ELSE
    LET d == ReadDate(Part(t, 1, i - 1))
        rest == Tail1(t, i + 1)
        j == Find(rest, {"Z", "B", "+", "-"}, 1)
        tm == ReadTime(IF j = 0 THEN rest ELSE Part(rest, 1, j - 1))
        z == ReadOff(IF j = 0 THEN "" ELSE Tail1(rest, j))
    IN IF d = BAD \/ tm[1] = "bad" \/ z = BAD THEN BAD
       ELSE IF d = OPEN \/ tm[1] = "open" \/ z = OPEN THEN OPEN
       ELSE <<"ok", d, tm, z>>
============================================================================
