----------------------------- MODULE BadiFormat -----------------------------
(***************************************************************************)
(* Formatted text: what strftime must write for a format, directive by     *)
(* directive, and which formats are none.                                  *)
(* c is the value written: [f, y, m, d, h, mi, s, us, kind, os, ou] with f *)
(* 0 short, 1 long form; pm tells the half of the day (see NearNoon).      *)
(***************************************************************************)
EXTENDS ConfTimes, BadiIso

FormatChars == {"a", "A", "b", "B", "c", "C", "d", "D", "e", "f", "G", "h", "H", "I", "j", "k", "K", "l", "m", "M", "n",
                "p", "r", "S", "T", "u", "U", "V", "w", "W", "x", "X", "y", "Y", "z", "Z", "%"}
DashChars == {"d", "H", "j", "l", "m", "M", "S", "y"}
ColonChars == {"K", "V", "z"}
\* a directive begins at i: the length of its modifier
ModLen(t, i) == IF CharAt(t, i + 1) \in {"-", ":"} THEN 1 ELSE 0
RECURSIVE FormatOkAt(_, _), Uses(_, _, _), Render(_, _, _, _)
FormatOkAt(t, i) ==
  IF i > Len(t) THEN TRUE
  ELSE IF CharAt(t, i) # "%" \/ i = Len(t) THEN FormatOkAt(t, i + 1)
  ELSE LET k == ModLen(t, i) IN
       IF i + 1 + k > Len(t) THEN FALSE
       ELSE LET ch == CharAt(t, i + 1 + k) IN
         /\ ch \in FormatChars
         /\ k = 0 \/ (CharAt(t, i + 1) = "-" /\ ch \in DashChars) \/ (CharAt(t, i + 1) = ":" /\ ch \in ColonChars)
         /\ FormatOkAt(t, i + 2 + k)
FormatOk(t) == Len(t) > 0 /\ FormatOkAt(t, 1)
\* does the format use one of the directives
Uses(t, cs, i) ==
  IF i >= Len(t) THEN FALSE
  ELSE IF CharAt(t, i) # "%" THEN Uses(t, cs, i + 1)
  ELSE LET k == ModLen(t, i) IN CharAt(t, i + 1 + k) \in cs \/ Uses(t, cs, i + 2 + k)

\* a deviation: the minutes of the offset written as hundredths of an hour
HundredthsText(c, mod) ==
  LET m == Abs(c.os) \div 60 IN
  (IF c.os < 0 THEN "-" ELSE "+") \o P2(m \div 60) \o (IF mod = ":" THEN ":" ELSE "") \o P2(((m % 60) * 100) \div 60)
Hour12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
Half(pm) == IF pm THEN "PM" ELSE "AM"
COrd(c) == Ord(c.y, c.m, c.d)
\* the year without century keeps its sign
YearOfCentury(y) == IF y < 0 THEN -(Abs(y) % 100) ELSE y % 100
\* weeks of the year as %U and %W count them: those of the ISO rule, without
\* leaving the year, so that days before week 1 are in week 0
WeekU(c) == ((COrd(c) - Week1(c.y)) \div 7) + 1
SlashDate(c) == P2(c.m) \o "/" \o P2(c.d) \o "/" \o Pad(YearOfCentury(c.y), 2)
Clock12(c) == ClockText(Hour12(c.h), c.mi, c.s)
Dashed(n, w, mod) == IF mod = "-" THEN ToString(n) ELSE Pad(n, w)
\* a-b-c text with an unpadded Kull-i-Shay in the long form
WholeYear(c) == IF c.f = 0 THEN YearIso(c.y) ELSE ToString(Kull(c.y)) \o " " \o P2(Vahid(c.y)) \o " " \o P2(YearIn(c.y))
CText(c) == DayAbv[WeekdayOrd(COrd(c)) + 1] \o " " \o MonthAbv[c.m + 1] \o " " \o P2(c.d) \o " " \o ClockText(c.h, c.mi, c.s) \o " " \o WholeYear(c)
Field(ch, mod, c, pm) ==
  CASE ch = "a" -> DayAbv[WeekdayOrd(COrd(c)) + 1]
    [] ch = "A" -> DayName[WeekdayOrd(COrd(c)) + 1]
    [] ch \in {"b", "h"} -> MonthAbv[c.m + 1]
    [] ch = "B" -> MonthName[c.m + 1]
    [] ch = "c" -> CText(c)
    [] ch = "C" -> (IF c.y < 0 THEN "-" ELSE "") \o P2(Abs(c.y) \div 100)
    [] ch = "d" -> Dashed(c.d, 2, mod)
    [] ch \in {"D", "x"} -> SlashDate(c)
    [] ch = "e" -> Spc(c.d, 2)
    [] ch = "f" -> Pad(c.us, 6)
    [] ch = "G" -> Year4(Iso(COrd(c))[1])
    [] ch \in {"H", "k"} -> Dashed(c.h, 2, mod)
    [] ch = "I" -> P2(Hour12(c.h))
    [] ch = "l" -> (IF mod = "-" THEN ToString(Hour12(c.h)) ELSE Spc(Hour12(c.h), 2))
    [] ch = "j" -> Dashed(YDay(c.y, c.m, c.d), 3, mod)
    [] ch = "K" -> (IF mod = ":" THEN ToString(Kull(c.y)) ELSE "")
    [] ch = "m" -> Dashed(c.m, 2, mod)
    [] ch = "M" -> Dashed(c.mi, 2, mod)
    [] ch = "n" -> "{a}"
    [] ch = "p" -> Half(pm)
    [] ch = "r" -> Clock12(c) \o " " \o Half(pm)
    [] ch = "S" -> Dashed(c.s, 2, mod)
    [] ch = "T" -> ClockText(c.h, c.mi, c.s)
    [] ch = "u" -> ToString(WeekdayOrd(COrd(c)) + 1)
    [] ch = "w" -> ToString(WeekdayOrd(COrd(c)))
    [] ch \in {"U", "W"} -> P2(WeekU(c))
    [] ch = "V" -> P2(IF mod = ":" THEN Vahid(c.y) ELSE Iso(COrd(c))[2])
    [] ch = "X" -> Clock12(c)
    [] ch = "y" -> Dashed(YearOfCentury(c.y), 2, mod)
    [] ch = "Y" -> Year4(c.y)
    [] ch = "z" -> (IF c.kind = 0 THEN "" ELSE IF c.hund THEN HundredthsText(c, mod) ELSE OffText(c.os, c.ou, IF mod = ":" THEN ":" ELSE ""))
    [] ch = "Z" -> ZoneName(c.kind, c.os, c.ou)
    [] OTHER -> "%"
Render(t, i, c, pm) ==
  IF i > Len(t) THEN ""
  ELSE IF CharAt(t, i) # "%" THEN CharAt(t, i) \o Render(t, i + 1, c, pm)
  ELSE IF i = Len(t) THEN ""                        \* a stray % at the end
  ELSE LET k == ModLen(t, i) IN
       Field(CharAt(t, i + 1 + k), IF k = 0 THEN "" ELSE CharAt(t, i + 1), c, pm) \o Render(t, i + 2 + k, c, pm)
\* the half of the day changes at midday, half way between two sunsets: the
\* days of one place last between 23:57 and 24:03, so only within three
\* minutes of 12:00:00 the calendar alone does not tell it
NearNoon(c) == Secs(c.h, c.mi, c.s) >= 43020 /\ Secs(c.h, c.mi, c.s) <= 43380
Halves(c) == IF NearNoon(c) THEN {TRUE, FALSE} ELSE {Secs(c.h, c.mi, c.s) > 43200}
Texts(t, c) == {Render(t, 1, c, pm) : pm \in Halves(c)}
=============================================================================
