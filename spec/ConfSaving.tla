---------------------------- MODULE ConfSaving ----------------------------
(***************************************************************************)
(* What calls on datetimes in zones with daylight saving must have         *)
(* returned (C29).  A datetime argument is 16 integers                     *)
(*   form y m d h mi s us kind st sv n1 m1 n2 m2 fold                      *)
(* kind: 0 naive, 1 zone with saving, 2 fixed zone of st minutes, 4 zone   *)
(* that knows no offset, 5 the zone object of the other argument.          *)
(***************************************************************************)
EXTENDS ConfTimes, Saving

XZone(a, k) == [st |-> a[k+9], sv |-> a[k+10], n1 |-> a[k+11], m1 |-> a[k+12], n2 |-> a[k+13], m2 |-> a[k+14]]
XKnown(a, k) == a[k+8] \in {1, 2, 5}
XOffM(a, k, p, fold) ==                                  \* offset at local moment p, seconds
  CASE a[k+8] \in {1, 5} -> OffsetAt(XZone(a, k), p[1], p[2], fold)
    [] a[k+8] = 2 -> 60 * a[k+9]
    [] OTHER -> 0
XOff(a, k) == XOffM(a, k, Local(a, k), a[k+15])
XSaves(a, k) == a[k+8] \in {1, 5} /\ LET p == Local(a, k) IN Saves(XZone(a, k), p[1], p[2], a[k+15])
XInstant(a, k) == Minus(Local(a, k), <<0, XOff(a, k), 0>>)
\* another fold is another offset
XUnsure(a, k) == LET p == Local(a, k) IN XOffM(a, k, p, 0) # XOffM(a, k, p, 1)
XName(a, k) == CASE a[k+8] \in {1, 5} -> (IF XSaves(a, k) THEN "Sv" ELSE "St")
                 [] a[k+8] = 2 -> UtcName(60 * a[k+9], 0)
                 [] OTHER -> ""
XShow(a, k, p, fold) ==
  LET f == MomentFields(p) IN
  Shape(a[k], SubSeq(f, 1, 3), SubSeq(f, 4, 7), fold,
        IF XKnown(a, k) THEN <<1, XOffM(a, k, p, fold), 0>> ELSE <<0, 0, 0>>)

\* r = offset(2) dst(2), time tuple: isdst, offset(2); utc time tuple; t = name, ISO text, %Z, name in the tuple
VSvShow(e) ==
  LET a == e.a o == XOff(a, 1) u == MomentFields(XInstant(a, 1)) k == a[9]
      p == XInstant(a, 1)
      known == B(XKnown(a, 1))
      dst == IF k = 1 THEN (IF XSaves(a, 1) THEN 60 * a[11] ELSE 0) ELSE 0
      z == IF XKnown(a, 1) THEN OffText(o, 0, ":") ELSE ""
  IN Ret(e, C(Sub(e.r, 1, 2) = <<known, o>>, "offset of the moment")
       \cup C(Sub(e.r, 3, 4) = (IF k = 1 THEN <<1, dst>> ELSE <<0, 0>>), "saving of the moment")
       \cup C(RA(e, 5) = (IF k = 1 THEN B(dst # 0) ELSE -1), "daylight saving flag")
       \cup C(Sub(e.r, 6, 7) = <<known, o>>, "offset of the time tuple")
       \cup C(Sub(e.r, 8, Len(e.r)) = DF(a[1], SubSeq(u, 1, 3)) \o SubSeq(u, 4, 6)
                 \o <<WeekdayOrd(p[1]), YDay(u[1], u[2], u[3]), 0>>, "UTC time tuple")
       \cup C(TA(e, 1) = XName(a, 1) /\ TA(e, 3) = XName(a, 1) /\ TA(e, 4) = XName(a, 1), "name of the zone")
       \cup C(TA(e, 2) = z, "offset in the ISO text"))
XSame(a) == a[25] = 5
XMixed(a) == XKnown(a, 1) # XKnown(a, 17)
XCmp(a) == IF XSame(a) \/ ~XKnown(a, 1) THEN CmpSeq3(Local(a, 1), Local(a, 17))
           ELSE CmpSeq3(XInstant(a, 1), XInstant(a, 17))
XEqual(a) == XCmp(a) = 0 /\ (XSame(a) \/ ~(XUnsure(a, 1) \/ XUnsure(a, 17)))
SixEq(c, eq) == <<B(eq), 1 - B(eq), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
VSvCmp(e) ==
  LET a == e.a c == XCmp(a) eq == XEqual(a) IN
  IF XMixed(a)
  THEN Ret(e, C(Sub(e.r, 1, 12) = <<0, 1, 2, 2, 2, 2, 0, 1, 2, 2, 2, 2>>, "naive against aware")
         \cup C(RA(e, 14) = 2, "set of datetimes"))
  ELSE Ret(e, C(Sub(e.r, 1, 6) = SixEq(c, eq) /\ Sub(e.r, 7, 12) = SixEq(-c, eq), "order of datetimes")
         \cup C(~eq \/ RA(e, 13) = 1, "equal datetimes hash equal")
         \cup C(RA(e, 14) = (IF eq THEN 1 ELSE 2), "set of datetimes"))
VSvSub(e) ==
  LET a == e.a IN
  IF XMixed(a) THEN RefuseBy(e, {"TypeError"}, "naive minus aware")
  ELSE Ret(e, C(e.r = (IF XSame(a) THEN Minus(Local(a, 1), Local(a, 17)) ELSE Minus(XInstant(a, 1), XInstant(a, 17))),
                "difference of datetimes"))
\* the reading of instant i in zone z, and its fold
SvReading(z, i) ==
  LET l == Plus(i, <<0, 60 * z.st, 0>>)
      o == 60 * (z.st + (IF AtInstant(z, l[1], l[2]) THEN z.sv ELSE 0))
      p == Plus(i, <<0, o, 0>>)
      f == MomentFields(p)
  IN <<SubSeq(f, 1, 3), SubSeq(f, 4, 7), B(OffsetAt(z, p[1], p[2], 0) # o), o>>
\* through UTC (how 0), a fixed zone (1) or another zone with saving (2) into the zone given
VSvInto(e) ==
  LET a == e.a q == SvReading(XZone(a, 1), XInstant(a, 1)) IN
  Ret(e, C(Sub(e.r, 1, Len(e.r) - 2) = Shape(a[1], q[1], q[2], q[3], <<1, q[4], 0>>), "moved into the zone")
     \cup C(RA(e, Len(e.r) - 1) = 1, "the zone asked for") \cup C(RA(e, Len(e.r)) = 1, "same instant"))
\* a[17] how, a[18..20] what; r = fields, fold, offset of the outcome
VSvDo(e) ==
  LET a == e.a p == Local(a, 1) f == a[16] t == <<a[18], a[19], a[20]>>
      q == CASE a[17] = 0 -> Plus(p, t) [] a[17] = 1 -> Minus(p, t)
             [] a[17] = 4 -> Plus(XInstant(a, 1), <<0, 60 * a[18], 0>>)
             [] a[17] = 6 -> <<p[1], a[19], p[3]>>
             [] OTHER -> p
      nf == CASE a[17] \in {0, 1, 4} -> 0 [] a[17] = 2 -> 1 - f [] OTHER -> f
      want == IF a[17] \in {3, 4}
              THEN LET g == MomentFields(q) IN Shape(a[1], SubSeq(g, 1, 3), SubSeq(g, 4, 7), nf, <<1, 60 * a[18], 0>>)
              ELSE XShow(a, 1, q, nf)
  IN Ret(e, C(e.r = want,
              CASE a[17] \in {0, 1} -> "datetime plus duration" [] a[17] = 2 -> "the other fold" [] a[17] = 3 -> "zone replaced"
                [] a[17] = 4 -> "moved to another zone" [] a[17] = 5 -> "taken apart and combined" [] a[17] = 6 -> "time replaced"
                [] OTHER -> "copied"))
\* the time stamp of an aware moment counts from 0126-16-02 07:59:32.4924 UTC
Epoch == <<Ord(126, 16, 2), Secs(7, 59, 32), 492400>>
StampNear(r, p) == LET d == Minus(r, p) IN (d[1] = 0 /\ d[2] = 0 /\ d[3] <= 200) \/ (d[1] = -1 /\ d[2] = 86399 /\ d[3] >= 999800)
VSvStamp(e) == Ret(e, C(Len(e.r) = 3 /\ \A i \in 1..Len(e.r) : e.r[i] \in -2000000..2000000, "shape of the timestamp")
                      \cup C(StampNear(<<RA(e, 1), RA(e, 2), RA(e, 3)>>, Minus(XInstant(e.a, 1), Epoch)), "timestamp of an aware moment"))
VAts(e) == Ret(e, C(Len(e.r) = 3 /\ \A i \in 1..Len(e.r) : e.r[i] \in -2000000..2000000, "shape of the timestamp")
                  \cup C(StampNear(<<RA(e, 1), RA(e, 2), RA(e, 3)>>, Minus(Instant(e.a, 1), Epoch)), "timestamp of an aware moment"))
\* a time of day alone has no offset in such a zone. a = h mi s us fold, h mi s us of a naive time
VSvTime(e) ==
  LET a == e.a c == CmpSeq3(<<0, Secs(a[1], a[2], a[3]), a[4]>>, <<0, Secs(a[6], a[7], a[8]), a[9]>>) IN
  Ret(e, C(Sub(e.r, 1, 6) = Six(c) /\ Sub(e.r, 7, 12) = Six(-c), "order of times")
     \cup C(c # 0 \/ RA(e, 13) = 1, "equal times hash equal")
     \cup C(Sub(e.r, 14, 16) = <<0, 0, 0>>, "no offset, name or saving"))
VSvBad(e) == RefuseBy(e, IF e.s[1] \in {"day", "minusday", "dstday"} THEN {"ValueError"} ELSE {"TypeError"}, "zones with impossible answers")
=============================================================================
