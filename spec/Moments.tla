------------------------------ MODULE Moments ------------------------------
(***************************************************************************)
(* The line of moments: a clock reading (day, hour, minute, second,        *)
(* microsecond) moved by carries and borrows between its fields, next to a *)
(* plain moment <<day, second, microsecond>> moved by Plus. Both must name *)
(* the same moment, and Plus, Minus and the order must obey the laws of    *)
(* addition. A second reading shows the same instant at another offset.    *)
(***************************************************************************)
EXTENDS BadiTime
CONSTANT Depth
VARIABLES f, p, off, k
vars == <<f, p, off, k>>
Bases == {MINORD, YS(-1) + 365, YS(0), YS(1), YS(181) + 341, YS(181) + 342, YS(181) + 345,
          YS(182) - 1, YS(172) + 346, MAXORD - 1, MAXORD}
TimesOfDay == {<<0, 0, 0, 0>>, <<23, 59, 59, 999999>>, <<12, 0, 59, 999999>>, <<0, 0, 0, 1>>}
Offsets == {<<0, 0, 0>>, <<0, 3600, 0>>, <<-1, 86399, 999999>>, <<0, 86399, 999999>>, <<-1, 0, 1>>, <<0, 12600, 0>>}
Steps == {<<0, 0, 1>>, <<0, 0, -1>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 60, 0>>, <<0, -3600, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>,
          <<0, 86399, 999999>>, <<-5, -1, -1>>}
\* carry or borrow through the fields, one field at a time
Add(c, s) ==
  LET us == c[5] + s[3]
      b1 == us \div 1000000
      ss == c[4] + (s[2] % 60) + b1
      b2 == ss \div 60
      mm == c[3] + ((s[2] \div 60) % 60) + b2
      b3 == mm \div 60
      hh == c[2] + (s[2] \div 3600) + b3
  IN <<c[1] + s[1] + (hh \div 24), hh % 24, mm % 60, ss % 60, us % 1000000>>
Init == /\ \E b \in Bases, t \in TimesOfDay :
             /\ f = <<b>> \o t
             /\ p = <<b, Secs(t[1], t[2], t[3]), t[4]>>
        /\ off \in Offsets /\ k = 0
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED off
        /\ \E s \in Steps : f' = Add(f, s) /\ p' = Plus(p, s)
Spec == Init /\ [][Next]_vars
Same == p = <<f[1], Secs(f[2], f[3], f[4]), f[5]>> /\ Hms(p[2]) = SubSeq(f, 2, 4)
Range == ValidTime(f[2], f[3], f[4], f[5], 0) /\ f[2] < 24
Laws == \A s \in Steps : LET q == Plus(p, s) IN
          /\ Minus(q, s) = p
          /\ Minus(q, p) = Norm(s[1], s[2], s[3])
          /\ CmpSeq3(q, p) = CmpSeq3(Norm(s[1], s[2], s[3]), <<0, 0, 0>>)
          /\ Neg(Minus(q, p)) = Minus(p, q)
\* the UTC moment of a local reading, and the order of instants
Instants == /\ ValidOffset(off)
            /\ Plus(Minus(p, off), off) = p
            /\ \A o \in Offsets : Minus(Plus(Minus(p, off), o), o) = Minus(p, off)
Fields == MomentValid(p) => MomentFields(p) = FromOrd(f[1]) \o SubSeq(f, 2, 5)
============================================================================
