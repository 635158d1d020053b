------------------------------ MODULE BadiTime ------------------------------
(***************************************************************************)
(* Time of day, durations, UTC offsets and the line of moments.            *)
(* A moment is <<day, second, microsecond>> with second in 0..86399 and    *)
(* microsecond in 0..999999; a duration has the same shape (as Python's    *)
(* timedelta).  Offsets are seconds and microseconds.                      *)
(***************************************************************************)
EXTENDS Badi

Norm(d, s, u) ==
  LET s1 == s + (u \div 1000000) IN <<d + (s1 \div 86400), s1 % 86400, u % 1000000>>
Plus(p, q) == Norm(p[1] + q[1], p[2] + q[2], p[3] + q[3])
Minus(p, q) == Norm(p[1] - q[1], p[2] - q[2], p[3] - q[3])
Neg(p) == Norm(-p[1], -p[2], -p[3])
CmpSeq3(p, q) == IF p[1] # q[1] THEN Cmp(p[1], q[1])
                 ELSE IF p[2] # q[2] THEN Cmp(p[2], q[2]) ELSE Cmp(p[3], q[3])
Secs(h, mi, s) == h * 3600 + mi * 60 + s
Hms(sec) == <<sec \div 3600, (sec % 3600) \div 60, sec % 60>>

ValidTime(h, mi, s, us, fold) ==
  /\ h \in 0..24 /\ mi \in 0..59 /\ s \in 0..60 /\ us >= 0 /\ us <= 999999 /\ fold \in {0, 1}
\* an offset (normalised duration) strictly between -24 h and 24 h
ValidOffset(q) == q[1] = 0 \/ (q[1] = -1 /\ (q[2] > 0 \/ q[3] > 0))

\* the date and time of a moment of the line of days
MomentFields(p) == FromOrd(p[1]) \o Hms(p[2]) \o <<p[3]>>
MomentValid(p) == ValidOrd(p[1])
=============================================================================
