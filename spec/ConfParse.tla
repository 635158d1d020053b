----------------------------- MODULE ConfParse -----------------------------
(***************************************************************************)
(* What calls that parse text must have returned (C17).                    *)
(***************************************************************************)
EXTENDS ConfFormat, BadiParse

\* observed: form, date, time, fold, offset (12 numbers in the short form)
ParsedDate(r) == Sub(r, 2, 4)
ParsedRest(r) == Sub(r, 5, 12)
ParseVerdict(e, m) ==
  Ret(e, C(\/ m[1] = OPEN
           \/ m[1][1] # "part" /\ ParsedDate(e.r) = SubSeq(m[1], 2, 4)
           \/ /\ m[1][1] = "part" /\ Sub(e.r, 3, 4) = SubSeq(m[1], 3, 4)
              /\ (m[1][2] = NF \/ RA(e, 2) = m[1][2]), "date parsed")
     \cup C(ParsedRest(e.r) = m[2] \o <<0>> \o m[3], "time and offset parsed")
     \cup C(RA(e, 1) = 1 /\ Len(e.r) >= 12, "parsed into the short form"))
\* any text and format
VStrp(e) ==
  LET f == Expand(e.s[2], 1) t == e.s[1] IN
  IF ~PlainFormat(f, 1) THEN RefuseBy(e, {"ValueError"}, "format that is none accepted")
  ELSE IF Repeats(f) THEN Refuse(e, "repeated directive accepted")
  ELSE LET m == Meaning(t, f) IN
  CASE m = OPEN -> {}
    [] m = BAD -> IF Readings(t, f) = {} THEN RefuseBy(e, {"ValueError"}, "text that does not match accepted")
                  ELSE Refuse(e, "text of no date accepted")
    [] OTHER -> ParseVerdict(e, m)
\* formatted and parsed back: fields a, format s[1]; the text in t[1]
Has(f, ks) == \E i \in DOMAIN Directives(f, 1) : Directives(f, 1)[i] \in ks
BackDate(f) == \/ Has(f, {"Y"}) /\ Has(f, {"m", "B", "b"}) /\ Has(f, {"d"})
               \/ Has(f, {"Y"}) /\ Has(f, {"j"})
               \/ Has(f, {"Y"}) /\ Has(f, {"U", "W"}) /\ Has(f, {"u", "w", "a", "A"})
               \/ Has(f, {"G"}) /\ Has(f, {"V"}) /\ Has(f, {"u", "w", "a", "A"})
BackHour(f) == Has(f, {"H"}) \/ (Has(f, {"I"}) /\ Has(f, {"p"}))
BackOpen(a, f) ==
  \/ Has(f, {"b"}) /\ ~Has(f, {"m", "B"}) /\ a[3] \in {12, 15} /\ ~Has(f, {"j", "G"})   \* two months are written Mas
  \/ Has(f, {"I"}) /\ NearNoon(DtCtx(a))
  \/ OpenOffset(f, DtCtx(a))
  \* the parser has no sign there, and the year of the century may be no leap year
  \/ Has(f, {"y"}) /\ (a[2] < 0 \/ (a[3] = 0 /\ a[4] = 5))
  \/ Has(f, {"z"}) /\ a[9] = 0                                  \* nothing is written
  \/ Has(f, {"Z"}) /\ ZoneName(a[9], a[10], a[11]) # "UTC"      \* names that are not known
\* combinations that state no date: ISO year, week and weekday go together
BackBad(f) == \/ Has(f, {"G"}) /\ (Has(f, {"j"}) \/ ~Has(f, {"V"}) \/ ~Has(f, {"u", "w", "a", "A"}))
              \/ Has(f, {"V"}) /\ ~Has(f, {"G"})
VStrpBack(e) ==
  LET a == e.a f == Expand(e.s[1], 1)
      hh == IF BackHour(f) THEN a[5] ELSE 0
      part(k, c) == IF Has(f, {c}) THEN a[k] ELSE 0
  IN IF BackOpen(a, f) THEN {}
     ELSE IF BackBad(f) THEN RefuseBy(e, {"NotReadBack"}, "format that states no date accepted")
     ELSE Ret(e, C(~BackDate(f) \/ ParsedDate(e.r) = ADate(a, 1), "date read back")
            \cup C((Has(f, {"I"}) /\ ~BackHour(f)) \/ RA(e, 5) = hh, "hour read back")
            \cup C(Sub(e.r, 6, 8) = <<part(6, "M"), part(7, "S"), part(8, "f")>>, "time read back")
            \cup C(Sub(e.r, 10, 12) = (IF a[9] # 0 /\ Has(f, {"z"}) THEN <<1, a[10], a[11]>> ELSE <<0, 0, 0>>), "offset read back"))

(*********************** recognised deviations ***********************)
\* the values the parser gives texts whose week, ISO week or offset it takes otherwise
DevWeekOfYear(e, r, f) ==
  LET y == The(YearsOf(r)) IN
  IF YearsOf(r) = {} \/ WeeksOf(r) = {} \/ WeekdaysOf(r) = {} \/ r["j"] # NF \/ ~InYears(y) THEN FALSE
  ELSE LET n == YS(y) + ParserWeekDay(y, The(WeeksOf(r)), The(WeekdaysOf(r))) - 1 IN
       IF ValidOrd(n) THEN e.ok = 1 /\ ParsedDate(e.r) = FromOrd(n) ELSE e.ok = 0
DevIsoWeek(e, r, f) ==
  LET q == The(ByIso(r)) n == FromIso(q[2], q[3], q[4]) + 7 IN
  IF ByIso(r) = {} \/ q[1] # "week" THEN {}
  ELSE IF q[3] = 53 /\ e.ok = 0 THEN {"iso-week-53-refused"}
  ELSE IF q[3] = 52 /\ Week52Years(q[2]) /\ (IF ValidOrd(n) THEN e.ok = 1 /\ ParsedDate(e.r) = FromOrd(n) ELSE e.ok = 0)
       THEN {"iso-week-52-late"} ELSE {}
\* of a text with one reading
DStrp(e) ==
  LET f == Expand(e.s[2], 1) rs == Counting(e.s[1], f) r == The(rs)[1] m == Value(r) IN
  IF ~PlainFormat(f, 1) \/ Repeats(f) \/ Cardinality(rs) # 1 \/ m \in {OPEN, BAD} THEN {}
  ELSE IF e.ok = 1 /\ ParsedRest(e.r) # m[2] \o <<0>> \o m[3] THEN {}
  ELSE (IF DevWeekOfYear(e, r, f) THEN {"strptime-week-of-year"} ELSE {}) \cup DevIsoWeek(e, r, f)
\* written and read back: also offsets written in hundredths, and week 53
DStrpBack(e) ==
  LET a == e.a f == Expand(e.s[1], 1) t == TA(e, 1)
      rs == IF e.ok = 1 THEN {r \in Readings(t, f) : r[2]} ELSE {}
      r == The(rs)[1]
      hund == a[9] # 0 /\ a[11] = 0 /\ a[10] % 900 = 0 /\ a[10] % 3600 # 0 /\ Has(f, {"z"})
      mi == Abs(a[10]) \div 60
      g == IF a[10] < 0 THEN -1 ELSE 1
      offread == g * ((mi \div 60) * 3600 + 60 * (((mi % 60) * 100) \div 60))
      weekly == Has(f, {"U", "W"}) /\ ~Has(f, {"j"})
      isoly == Has(f, {"G"})
      zone == IF a[9] # 0 /\ Has(f, {"z"}) THEN <<1, a[10], a[11]>> ELSE <<0, 0, 0>>
      n == AOrd(a, 1)
      c == DtCtx(a)
      wd == WeekdayOrd(n)
      \* the day the parser makes of the week written
      pn == YS(a[2]) + ParserWeekDay(a[2], WeekU(c), wd) - 1
      timeok == (Has(f, {"I"}) /\ ~BackHour(f)) \/ (Sub(e.r, 5, 8) = <<IF BackHour(f) THEN a[5] ELSE 0, IF Has(f, {"M"}) THEN a[6] ELSE 0,
                  IF Has(f, {"S"}) THEN a[7] ELSE 0, IF Has(f, {"f"}) THEN a[8] ELSE 0>>)
      iw == Iso(n)
  IN IF BackOpen(a, f) THEN {}
     ELSE
     \* which deviations make the code refuse what it wrote
     IF a[1] = 1 /\ Find(e.s[1], {"c"}, 1) # 0 /\ Uses(e.s[1], {"c"}, 1) THEN
       (IF e.ok = 0 /\ e.ex = "NotReadBack" THEN {"long-form-c-not-read"} ELSE {})
     ELSE IF e.ok = 0 /\ e.ex # "NotReadBack" THEN {}
     ELSE IF e.ok = 0 THEN
       (IF hund /\ (mi % 60) = 45 THEN {"strftime-z-hundredths"} ELSE {})
       \cup (IF weekly /\ (WeekU(c) = 53 \/ (Has(f, {"Y"}) /\ ~ValidOrd(pn))) THEN {"strptime-week-of-year"} ELSE {})
       \cup (IF isoly /\ iw[2] = 53 THEN {"iso-week-53-refused"} ELSE {})
       \cup (IF isoly /\ iw[2] = 52 /\ Week52Years(iw[1]) /\ ~ValidOrd(n + 7) THEN {"iso-week-52-late"} ELSE {})
     ELSE IF ~timeok THEN {}
     ELSE LET wdate == weekly /\ Has(f, {"Y"}) /\ Has(f, {"u", "w", "a", "A"})
              idate == isoly /\ iw[2] = 52 /\ Week52Years(iw[1])
              date == IF wdate /\ ValidOrd(pn) THEN FromOrd(pn) ELSE IF idate /\ ValidOrd(n + 7) THEN FromOrd(n + 7) ELSE ADate(a, 1)
              off == IF hund THEN <<1, offread, 0>> ELSE zone
          IN IF (~BackDate(f) \/ ParsedDate(e.r) = date) /\ Sub(e.r, 10, 12) = off
             THEN (IF hund THEN {"strftime-z-hundredths"} ELSE {})
                  \cup (IF BackDate(f) /\ date # ADate(a, 1) THEN {IF wdate THEN "strptime-week-of-year" ELSE "iso-week-52-late"} ELSE {})
             ELSE {}
=============================================================================
