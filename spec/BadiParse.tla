----------------------------- MODULE BadiParse -----------------------------
(***************************************************************************)
(* Parsed text: what a text means under a format.  Readings(t, f) is the   *)
(* set of all ways to read t as f, each giving the fields it states and    *)
(* whether every field has the width formatted text has; Value says which  *)
(* date, time and offset such fields mean.                                 *)
(***************************************************************************)
EXTENDS BadiFormat

NF == -999999
\* expansions of the locale's formats (C locale)
RECURSIVE Expand(_, _), Directives(_, _), PlainFormat(_, _), Match(_, _, _, _, _), TightAt(_, _), WideEnd(_, _)
Expand(f, i) ==
  IF i > Len(f) THEN ""
  ELSE IF CharAt(f, i) # "%" \/ i = Len(f) THEN CharAt(f, i) \o Expand(f, i + 1)
  ELSE LET ch == CharAt(f, i + 1) IN
       (CASE ch = "c" -> "%a %b %d %H:%M:%S %Y"
          [] ch = "x" -> "%m/%d/%y"
          [] ch = "X" -> "%I:%M:%S"
          [] OTHER -> "%" \o ch) \o Expand(f, i + 2)
ParseChars == {"d", "H", "I", "j", "m", "M", "S", "U", "W", "w", "u", "V", "y", "Y", "G", "f", "z", "A", "a", "B", "b", "p", "Z"}
Directives(f, i) ==
  IF i >= Len(f) THEN <<>>
  ELSE IF CharAt(f, i) # "%" THEN Directives(f, i + 1)
  ELSE <<CharAt(f, i + 1)>> \o Directives(f, i + 2)
PlainFormat(f, i) ==
  IF i > Len(f) THEN TRUE
  ELSE IF CharAt(f, i) # "%" THEN PlainFormat(f, i + 1)
  ELSE i < Len(f) /\ CharAt(f, i + 1) \in ParseChars \cup {"%"} /\ PlainFormat(f, i + 2)
Repeats(f) == LET s == Directives(f, 1) IN \E i, j \in DOMAIN s : i < j /\ s[i] = s[j] /\ s[i] # "%"
\* two directives of digits with nothing between them
NumberChars == {"d", "H", "I", "j", "m", "M", "S", "U", "W", "w", "u", "V", "y", "Y", "G", "f", "z"}
TightAt(f, i) ==
  IF i + 3 > Len(f) THEN FALSE
  ELSE IF CharAt(f, i) # "%" THEN TightAt(f, i + 1)
  ELSE \/ CharAt(f, i + 1) \in NumberChars /\ (CharAt(f, i + 2) = "%" \/ IsDigit(CharAt(f, i + 2)))
       \/ TightAt(f, i + 2)

FieldNames == ParseChars \ {"Z"}
NFZ == <<>>                                  \* no offset stated
NoFields == [k \in FieldNames |-> IF k = "z" THEN NFZ ELSE NF]
\* digits of t in [j, j + w - 1], read as a number between lo and hi
Nums(t, j, ws, lo, hi, cw) ==
  {<<j + w, Num(SubSeq(t, j, j + w - 1)), w = cw>> : w \in
    {w \in ws : j + w - 1 <= Len(t) /\ (\A k \in j..(j + w - 1) : IsDigit(CharAt(t, k)))
                /\ LET v == Num(SubSeq(t, j, j + w - 1)) IN v >= lo /\ v <= hi}}
Signed(t, j, ws, cw) ==
  LET neg == j <= Len(t) /\ CharAt(t, j) = "-" IN
  {<<q[1], IF neg THEN -q[2] ELSE q[2], q[3]>> : q \in Nums(t, IF neg THEN j + 1 ELSE j, ws, 0, 9999, cw)}
\* one of the names at j
Names(t, j, names, first) ==
  {<<j + Len(names[i]), first + i - 1, TRUE>> : i \in
    {i \in DOMAIN names : j + Len(names[i]) - 1 <= Len(t) /\ SubSeq(t, j, j + Len(names[i]) - 1) = names[i]}}
OffShapes == {"+dddd", "+dd:dd", "+dddddd", "+dd:dd:dd", "+dddd:dd", "+dd:dddd"}
\* end of the digits that begin at j
WideEnd(t, j) == IF j <= Len(t) /\ IsDigit(CharAt(t, j)) THEN WideEnd(t, j + 1) ELSE j - 1
\* offsets: seconds and microseconds in one value; BAD mixes of colons
OffValue(t, shape, frac) ==
  LET g == IF CharAt(t, 1) = "-" THEN -1 ELSE 1
      colon == CharAt(shape, 4) = ":"
      mi == IF colon THEN NumAt(t, 5, 6) ELSE NumAt(t, 4, 5)
      s == CASE shape = "+dddddd" -> NumAt(t, 6, 7) [] shape = "+dd:dd:dd" -> NumAt(t, 8, 9) [] OTHER -> 0
  IN IF shape \in {"+dddd:dd", "+dd:dddd"} THEN BAD
     ELSE LET q == Norm(0, g * (3600 * NumAt(t, 2, 3) + 60 * mi + s), g * frac) IN <<(86400 * q[1]) + q[2], q[3]>>
\* the minute and the second of an offset lie below 60
OffDigits(t, shape) ==
  LET mi == IF CharAt(shape, 4) = ":" THEN NumAt(t, 5, 6) ELSE NumAt(t, 4, 5)
      s == CASE shape \in {"+dddddd"} -> NumAt(t, 6, 7)
             [] shape = "+dd:dd:dd" -> NumAt(t, 8, 9)
             [] shape = "+dddd:dd" -> NumAt(t, 7, 8)
             [] shape = "+dd:dddd" -> NumAt(t, 7, 8)
             [] OTHER -> 0
  IN mi < 60 /\ s < 60
Offs(t, j) ==
  (IF j <= Len(t) /\ CharAt(t, j) = "Z" THEN {<<j + 1, <<0, 0>>, FALSE>>} ELSE {})
  \cup (IF j <= Len(t) /\ CharAt(t, j) \in {"+", "-"} THEN
    UNION {LET u == SubSeq(t, j, j + w - 1)
               sh == "+" \o DShape(SubSeq(u, 2, w))
               e == j + w
           IN IF sh \notin OffShapes \/ ~OffDigits(u, sh) THEN {}
              ELSE {<<e, OffValue(u, sh, 0), TRUE>>}
                \cup (IF w >= 7 /\ sh # "+dddd" /\ e <= Len(t) /\ CharAt(t, e) = "." THEN
                  {<<e + 1 + k, OffValue(u, sh, Num(SubSeq(t, e + 1, e + k)) * (CASE k = 1 -> 100000 [] k = 2 -> 10000
                     [] k = 3 -> 1000 [] k = 4 -> 100 [] k = 5 -> 10 [] OTHER -> 1)), k = 6>> :
                      k \in {k \in 1..6 : e + k <= WideEnd(t, e + 1)}}
                  ELSE {})
           : w \in {w \in 5..9 : j + w - 1 <= Len(t)}}
  ELSE {})
Micros(t, j) ==
  {<<j + k, Num(SubSeq(t, j, j + k - 1)) * (CASE k = 1 -> 100000 [] k = 2 -> 10000
     [] k = 3 -> 1000 [] k = 4 -> 100 [] k = 5 -> 10 [] OTHER -> 1), k = 6>> : k \in {k \in 1..6 : j + k - 1 <= WideEnd(t, j)}}
\* all readings of directive ch at j: end, value, width as written
Reads(ch, t, j) ==
  CASE ch = "d" -> Nums(t, j, {1, 2}, 1, 19, 2)
         \cup (IF j < Len(t) /\ CharAt(t, j) = " " /\ IsDigit(CharAt(t, j + 1)) /\ CharAt(t, j + 1) # "0"
               THEN {<<j + 2, Num(CharAt(t, j + 1)), FALSE>>} ELSE {})
    [] ch = "H" -> Nums(t, j, {1, 2}, 0, 23, 2)
    [] ch = "I" -> Nums(t, j, {1, 2}, 1, 12, 2)
    [] ch = "j" -> Nums(t, j, {1, 2, 3}, 1, 366, 3)
    [] ch = "m" -> Nums(t, j, {1, 2}, 0, 19, 2)
    [] ch = "M" -> Nums(t, j, {1, 2}, 0, 59, 2)
    [] ch = "S" -> Nums(t, j, {1, 2}, 0, 61, 2)
    [] ch \in {"U", "W"} -> Nums(t, j, {1, 2}, 0, 52, 2)
    [] ch = "w" -> Nums(t, j, {1}, 0, 6, 1)
    [] ch = "u" -> Nums(t, j, {1}, 1, 7, 1)
    [] ch = "V" -> Nums(t, j, {1}, 0, 9, 2) \cup Nums(t, j, {2}, 1, 53, 2)
    [] ch = "y" -> Nums(t, j, {2}, 0, 99, 2)
    [] ch = "Y" -> Signed(t, j, 1..4, 4)
    [] ch = "G" -> Signed(t, j, {4}, 4)
    [] ch = "f" -> Micros(t, j)
    [] ch = "z" -> Offs(t, j)
    [] ch = "A" -> Names(t, j, DayName, 0)
    [] ch = "a" -> Names(t, j, DayAbv, 0)
    [] ch = "B" -> Names(t, j, MonthName, 0)
    [] ch = "b" -> Names(t, j, MonthAbv, 0)
    [] ch = "p" -> Names(t, j, <<"AM", "PM">>, 0)
    [] ch = "Z" -> Names(t, j, <<"UTC", "GMT">>, 0)
    [] OTHER -> {}
\* readings of the format from i on at the text from j on: <<fields, as written>>
Match(f, i, t, j, r) ==
  IF i > Len(f) THEN (IF j = Len(t) + 1 THEN {r} ELSE {})
  ELSE LET ch == CharAt(f, i) IN
  IF ch = "%" /\ CharAt(f, i + 1) # "%" THEN
    LET k == CharAt(f, i + 1) IN
    UNION {Match(f, i + 2, t, q[1], <<IF k = "Z" THEN r[1] ELSE [r[1] EXCEPT ![k] = q[2]], r[2] /\ q[3]>>) : q \in Reads(k, t, j)}
  ELSE IF j > Len(t) THEN {}
  ELSE IF ch = " " THEN
    \* a run of spaces stands for any run of spaces
    IF CharAt(t, j) # " " THEN {}
    ELSE LET e == CHOOSE e \in i..Len(f) : (\A k \in i..e : CharAt(f, k) = " ") /\ (e = Len(f) \/ CharAt(f, e + 1) # " ")
             x == CHOOSE x \in j..Len(t) : (\A k \in j..x : CharAt(t, k) = " ") /\ (x = Len(t) \/ CharAt(t, x + 1) # " ")
         IN UNION {Match(f, e + 1, t, y + 1, r) : y \in j..x}
  ELSE IF CharAt(t, j) # ch THEN {}
  ELSE Match(f, IF ch = "%" THEN i + 2 ELSE i + 1, t, j + 1, r)
Readings(t, f) == Match(f, 1, t, 1, <<NoFields, TRUE>>)

(***************************** meaning *****************************)
Given(r, ks) == {r[k] : k \in ks} \ {NF}
The(s) == CHOOSE x \in s : TRUE
HourOf(r) ==     \* set of hours stated
  (IF r["H"] = NF THEN {} ELSE {r["H"]})
  \cup (IF r["I"] = NF THEN {}
        ELSE IF r["p"] = 1 THEN {IF r["I"] = 12 THEN 12 ELSE r["I"] + 12} ELSE {r["I"] % 12})
WeekdaysOf(r) == Given(r, {"w", "A", "a"}) \cup (IF r["u"] = NF THEN {} ELSE {r["u"] - 1})
YearsOf(r) == Given(r, {"Y", "y"})
MonthsOf(r) == Given(r, {"m", "B", "b"})
WeeksOf(r) == Given(r, {"U", "W"})
\* dates stated: in months, by day of the year, by week of the year, by ISO week
ByMonth(r) == IF YearsOf(r) # {} /\ MonthsOf(r) # {} /\ r["d"] # NF THEN {<<"date", The(YearsOf(r)), The(MonthsOf(r)), r["d"]>>} ELSE {}
ByDay(r) == IF YearsOf(r) # {} /\ r["j"] # NF THEN
              LET y == The(YearsOf(r)) IN
              IF ~InYears(y) THEN {<<"date", y, 1, 1>>} ELSE IF r["j"] > YearDays(y) THEN {OPEN} ELSE {<<"date">> \o FromYDay(y, r["j"])} ELSE {}
ByWeek(r) == IF YearsOf(r) # {} /\ WeeksOf(r) # {} /\ WeekdaysOf(r) # {} THEN
               LET y == The(YearsOf(r)) IN
               IF ~InYears(y) THEN {<<"date", y, 1, 1>>}
               ELSE LET n == FromIso(y, The(WeeksOf(r)), The(WeekdaysOf(r)) + 1) IN
                    IF n < YS(y) \/ n >= YS(y + 1) THEN {OPEN} ELSE {<<"date">> \o FromOrd(n)} ELSE {}
ByIso(r) == IF r["G"] # NF /\ r["V"] # NF /\ WeekdaysOf(r) # {} THEN {WeekOr(r["G"], r["V"], The(WeekdaysOf(r)) + 1)} ELSE {}
Dates(r) == ByMonth(r) \cup ByDay(r) \cup ByWeek(r) \cup {IF q[1] = "week" THEN <<"date">> \o FromOrd(FromIso(q[2], q[3], q[4])) ELSE q : q \in ByIso(r)}
\* no date is stated: what is, is kept, other fields are 1; the year may be any
Partial(r) ==
  IF \E k \in {"j", "U", "W", "G", "V"} : r[k] # NF THEN OPEN
  ELSE LET m == IF MonthsOf(r) = {} THEN 1 ELSE The(MonthsOf(r))
           d == IF r["d"] = NF THEN 1 ELSE r["d"]
       IN IF m > 0 /\ d > 19 THEN BAD
          ELSE <<"part", IF YearsOf(r) = {} THEN NF ELSE The(YearsOf(r)), m, d>>
\* <<date, time, zone>>: date may be OPEN
Value(r) ==
  IF r["z"] = BAD THEN BAD
  ELSE IF r["G"] # NF /\ (r["j"] # NF \/ r["V"] = NF \/ WeekdaysOf(r) = {}) THEN BAD
  ELSE IF r["G"] = NF /\ r["V"] # NF THEN BAD
  ELSE IF r["z"] # NFZ /\ (r["z"][1] >= 86400 \/ r["z"][1] < -86400 \/ (r["z"][1] = -86400 /\ r["z"][2] = 0)) THEN BAD
  ELSE IF \E y \in YearsOf(r) : ~InYears(y) THEN (IF r["G"] # NF THEN OPEN ELSE BAD)
  ELSE IF MonthsOf(r) = {0} /\ r["d"] > 5 THEN BAD
  ELSE IF \/ \E s \in {HourOf(r), WeekdaysOf(r), YearsOf(r), MonthsOf(r), WeeksOf(r)} : Cardinality(s) > 1
          \/ Cardinality(Dates(r)) > 1 \/ (r["S"] # NF /\ r["S"] > 59)
       THEN OPEN
  ELSE LET ds == Dates(r) IN
  IF ds # {} /\ The(ds) = BAD THEN BAD
  ELSE IF ds # {} /\ The(ds) # OPEN /\ LET q == The(ds) IN ~ValidDate(q[2], q[3], q[4]) THEN BAD
  ELSE IF ds = {} /\ Partial(r) = BAD THEN BAD
  ELSE LET zero(k) == IF r[k] = NF THEN 0 ELSE r[k] IN
       <<IF ds = {} THEN Partial(r) ELSE The(ds),
         <<IF HourOf(r) = {} THEN 0 ELSE The(HourOf(r)), zero("M"), zero("S"), zero("f")>>,
         IF r["z"] = NFZ THEN <<0, 0, 0>> ELSE <<1>> \o r["z"]>>
\* the readings that count: those of fields as written, if there are any
Counting(t, f) == LET rs == Readings(t, f) cs == {r \in rs : r[2]} IN IF cs # {} THEN cs ELSE rs
\* what the text means: BAD none, OPEN not determined, or the value
Meaning(t, f) ==
  LET rs == Readings(t, f)
      vs == {Value(r[1]) : r \in rs}
      cs == {Value(r[1]) : r \in {r \in rs : r[2]}}
  IN IF rs = {} THEN BAD
     ELSE IF Cardinality(cs) = 1 THEN The(cs)         \* fields as written go first
     ELSE IF cs = {} /\ Cardinality(vs) = 1 /\ ~TightAt(f, 1) THEN The(vs)
     ELSE OPEN

(************** the week of the year as the parser has it **************)
\* (a recognised deviation: weeks begin with the first Jalal of the year)
ParserWeekDay(y, w, d) ==
  LET first == WeekdayOrd(YS(y)) zero == (7 - first) % 7 IN
  IF w = 0 THEN (IF d < first THEN 7 - first + d + 1 ELSE 1 + d - first)
  ELSE 1 + zero + (7 * (w - 1)) + d
=============================================================================
