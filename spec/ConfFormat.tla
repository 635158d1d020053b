----------------------------- MODULE ConfFormat -----------------------------
(***************************************************************************)
(* What calls that format values must have returned (C16).                 *)
(***************************************************************************)
EXTENDS ConfText, BadiFormat

Ctx(form, t, tm, kind, os, ou) ==
  [f |-> form, y |-> t[1], m |-> t[2], d |-> t[3], h |-> tm[1], mi |-> tm[2], s |-> tm[3], us |-> tm[4],
   kind |-> kind, os |-> os, ou |-> ou, hund |-> FALSE]
DateCtx(a) == Ctx(a[1], SubSeq(a, 3, 5), <<0, 0, 0, 0>>, 0, 0, 0)
DtCtx(a) == Ctx(a[1], ADate(a, 1), ATime(a, 1), a[9], a[10], a[11])
TimeCtx(a) == Ctx(0, <<1, 1, 1>>, SubSeq(a, 1, 4), a[5], a[6], a[7])
\* offsets of other than quarter hours are left open with %z
OpenOffset(t, c) == c.kind # 0 /\ (c.os % 900 # 0 \/ c.ou # 0) /\ Uses(t, {"z"}, 1)
VFormat(e, c) ==
  LET t == e.s[1] IN
  IF ~FormatOk(t) THEN Refuse(e, "format that is none accepted")
  ELSE IF OpenOffset(t, c) THEN C(e.ok = 1, "format refused")
  ELSE Ret(e, C(TA(e, 1) \in Texts(t, c), "formatted text")
         \cup C(TA(e, 2) = TA(e, 1) /\ RA(e, 1) = 1, "format() of the value"))
DFormat(e, c) ==
  LET t == e.s[1] IN
  IF c.kind # 0 /\ c.os % 900 = 0 /\ c.os % 3600 # 0 /\ c.ou = 0 /\ FormatOk(t) /\ Uses(t, {"z"}, 1)
     /\ e.ok = 1 /\ TA(e, 1) \in Texts(t, [c EXCEPT !.hund = TRUE]) /\ TA(e, 2) = TA(e, 1) /\ RA(e, 1) = 1
  THEN {"strftime-z-hundredths"} ELSE {}
VCtime(e) ==
  LET a == e.a IN
  Ret(e, C(TA(e, 1) = DayName[WeekdayOrd(AOrd(a, 1)) + 1] \o " " \o MonthName[a[3] + 1] \o " " \o Spc(a[4], 2) \o " "
            \o ClockText(a[5], a[6], a[7]) \o " " \o Year4(a[2]), "ctime"))
=============================================================================
