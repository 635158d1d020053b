----------------------------- MODULE Workbench -----------------------------
(***************************************************************************)
(* One value - a date, a datetime or a time - that is made and then        *)
(* handed on from operation to operation: arithmetic, replacing fields,    *)
(* taking parts, combining, moving to another zone, writing and reading    *)
(* back, copying and pickling.  TLC walks the machine at random and prints *)
(* its behaviours; the driver makes every step with the real objects and   *)
(* compares what it gets with the value of the machine, and with an object *)
(* made directly from the same fields.                                     *)
(*   v = <<kind, form, ordinal, second, microsecond, aware, offset, fold,  *)
(*        sub>>                                                            *)
(*   kind 0 date, 1 datetime, 2 time; form 0 short, 1 long; aware 0 no     *)
(*   zone, 1 a fixed zone, 2 a zone with saving (an hour from the 11th of  *)
(*   the first month, 2:00, to the 11th of the tenth, 3:00), whose offset  *)
(*   follows from day, second and fold (a time alone has none); offset in  *)
(*   minutes; sub 1 an instance of a subclass, which every operation keeps *)
(*   but taking a part.  Each step is                                      *)
(*   <<action, three arguments>> \o v \o <<y, m, d>>                       *)
(***************************************************************************)
EXTENDS BadiTime, Saving, TLC, Randomization
CONSTANT Depth
VARIABLES v, hist
vars == <<v, hist>>

\* years whose ordinals the code has wrong, and days that fell in the reform of 1582 (listed findings)
Clear(n) == ValidOrd(n) /\ ~(n \in YS(-1796)..YS(-1787)) /\ ~(n \in 577690..577760)
One(S) == RandomSubset(1, S)
Edges == {MINORD, MINORD + 1, MAXORD, MAXORD - 1} \cup
         UNION {{YS(y) - 1, YS(y), YS(y) + 10, YS(y) + 18, YS(y) + 181, YS(y) + 341, YS(y) + 342, YS(y) + 345, YS(y) + 346, YS(y + 1) - 19} :
                y \in {-361, -360, -19, -18, -1, 0, 1, 2, 19, 20, 172, 181, 182, 183, 361, 362, 722, 723, 1083, 1160}}
Days == IF RandomElement(1..3) = 1 THEN Edges ELSE MINORD..MAXORD
Seconds == IF RandomElement(1..3) = 1 THEN {0, 1, 59, 60, 3599, 3600, 7199, 7200, 9000, 10799, 10800, 14399, 43199, 43200, 86399} ELSE 0..86399
Micros == IF RandomElement(1..2) = 1 THEN {0, 0, 1, 10, 500000, 999999} ELSE 0..999999
Offsets == IF RandomElement(1..2) = 1 THEN {0, 60, -60, 210, -570, 1439, -1439} ELSE -1439..1439
Steps == IF RandomElement(1..2) = 1 THEN {0, 1, -1, 19, -19, 4, 5, 171, -171, 365, 366, -365} ELSE -200000..200000

Kind == v[1]  Form == v[2]  Day == v[3]  Sec == v[4]  Mic == v[5]  Aware == v[6]  Off == v[7]  Fold == v[8]  Sub == v[9]
Fields(w) == IF w[1] = 2 THEN <<0, 0, 0>> ELSE FromOrd(w[3])
Y == YearOf(Day)
IsDay == Kind \in {0, 1}

\* the zone with saving, in the year of day n
Summer(n) == LET y == YS(YearOf(n)) IN [st |-> 210, sv |-> 60, n1 |-> y + 10, m1 |-> 120, n2 |-> y + 181, m2 |-> 180]
\* the offset follows from the reading
Fix(w) == IF w[6] # 2 THEN w
          ELSE [w EXCEPT ![7] = IF w[1] = 2 THEN 0 ELSE OffsetAt(Summer(w[3]), w[3], w[4], w[8]) \div 60]
Do(a, x, w) == /\ Len(hist) < Depth
               /\ w[1] = 2 \/ Clear(w[3])
               /\ v' = Fix(w)
               /\ hist' = Append(hist, <<a>> \o x \o Fix(w) \o Fields(w))
Zero == <<0, 0, 0>>

\* 1 2 3: made from fields
New == \E k \in One({0, 1, 1, 2}), f \in One({0, 1}), n \in One(Days), s \in One(Seconds), u \in One(Micros),
          w \in One({0, 1, 2}), o \in One(Offsets), fo \in One({0, 0, 1}), c \in One({0, 1}) :
   Do(1, Zero, IF k = 0 THEN <<0, f, n, 0, 0, 0, 0, 0, c>>
               ELSE IF k = 1 THEN <<1, f, n, s, u, w, IF w = 1 THEN o ELSE 0, fo, c>>
               ELSE <<2, 0, 0, s, u, w, IF w = 1 THEN o ELSE 0, fo, c>>)
Init == v = <<3, 0, 0, 0, 0, 0, 0, 0, 0>> /\ hist = <<>>
\* a moment near the ends of saving, in any zone
NewSeam == \E y \in One({-19, 0, 1, 19, 172, 181, 182, 361, 1160}), d \in One({10, 181}), s \in One({7199, 7200, 9000, 9000, 10799, 10800, 14399}),
              u \in One(Micros), w \in One({0, 1, 2, 2, 2}), o \in One({0, 210, 270}), fo \in One({0, 1}), c \in One({0, 1}), f \in One({0, 1}) :
   Do(1, Zero, <<1, f, YS(y) + d, s, u, w, IF w = 1 THEN o ELSE 0, fo, c>>)
Start == v[1] = 3 /\ IF RandomElement(1..4) = 1 THEN NewSeam ELSE New

\* arithmetic; the fold is not kept
AddDays == IsDay /\ \E k \in One(Steps), way \in One({0, 1}) :   \* way: plus, or minus the opposite
  LET n == Day + k IN ValidOrd(n) /\ Do(2, <<k, way, 0>>, [v EXCEPT ![3] = n, ![8] = 0])
AddTime == Kind = 1 /\ \E k \in One(Steps), s \in One(Seconds), u \in One(Micros) :
  LET q == Plus(<<Day, Sec, Mic>>, <<k, s, u>>) IN
  ValidOrd(q[1]) /\ Do(3, <<k, s, u>>, [v EXCEPT ![3] = q[1], ![4] = q[2], ![5] = q[3], ![8] = 0])

Nudge == Kind = 1 /\ \E s \in One({<<0, 3600>>, <<-1, 82800>>, <<0, 1800>>, <<-1, 84600>>}) :
  LET q == Plus(<<Day, Sec, Mic>>, <<s[1], s[2], 0>>) IN
  ValidOrd(q[1]) /\ Do(3, <<s[1], s[2], 0>>, [v EXCEPT ![3] = q[1], ![4] = q[2], ![5] = q[3], ![8] = 0])

\* replacing fields
PutDay == IsDay /\ \E d \in One(1..19) : LET f == FromOrd(Day) IN
  d <= MonthDays(f[1], f[2]) /\ Do(4, <<d, 0, 0>>, [v EXCEPT ![3] = Ord(f[1], f[2], d)])
PutMonth == IsDay /\ \E m \in One({0, 0, 1, 18, 19} \cup 0..19) : LET f == FromOrd(Day) IN
  f[3] <= MonthDays(f[1], m) /\ Do(5, <<m, 0, 0>>, [v EXCEPT ![3] = Ord(f[1], m, f[3])])
PutYear == IsDay /\ Form = 0 /\ \E y \in One(MINY..MAXY) : LET f == FromOrd(Day) IN
  f[3] <= MonthDays(y, f[2]) /\ Do(6, <<y, 0, 0>>, [v EXCEPT ![3] = Ord(y, f[2], f[3])])
PutLong == IsDay /\ Form = 1 /\ \E what \in One(0..2), x \in One(1..19) :     \* year, Vahid or Kull-i-Shay
  LET f == FromOrd(Day) l == Long(f[1]) k == (x % 11) - 6
      y == CASE what = 0 -> Short(l[1], l[2], x) [] what = 1 -> Short(l[1], x, l[3]) [] OTHER -> Short(k, l[2], l[3])
  IN InYears(y) /\ f[3] <= MonthDays(y, f[2])
     /\ Do(7, <<what, IF what = 2 THEN k ELSE x, 0>>, [v EXCEPT ![3] = Ord(y, f[2], f[3])])
PutTime == Kind # 0 /\ \E what \in One(0..3), x \in One(0..59), u \in One(Micros) :
  LET h == Hms(Sec)
      q == CASE what = 0 -> <<Secs(x % 24, h[2], h[3]), Mic, x % 24>> [] what = 1 -> <<Secs(h[1], x, h[3]), Mic, x>>
             [] what = 2 -> <<Secs(h[1], h[2], x), Mic, x>> [] OTHER -> <<Sec, u, u>>
  IN Do(8, <<what, q[3], 0>>, [v EXCEPT ![4] = q[1], ![5] = q[2]])
PutZone == Kind # 0 /\ \E w \in One({0, 1, 2}), o \in One(Offsets) :
  Do(9, <<w, IF w = 1 THEN o ELSE 0, 0>>, [v EXCEPT ![6] = w, ![7] = IF w = 1 THEN o ELSE 0])
PutFold == Kind # 0 /\ \E f \in {0, 1} : Do(10, <<f, 0, 0>>, [v EXCEPT ![8] = f])

\* parts and combinations
ToDate == Kind = 1 /\ Do(11, Zero, <<0, Form, Day, 0, 0, 0, 0, 0, 0>>)
ToTime == Kind = 1 /\ \E z \in {0, 1} :                                       \* with or without the zone
  Do(12, <<z, 0, 0>>, <<2, 0, 0, Sec, Mic, IF z = 1 THEN Aware ELSE 0, IF z = 1 THEN Off ELSE 0, Fold, 0>>)
WithTime == IsDay /\ \E s \in One(Seconds), u \in One(Micros), w \in One({0, 1}) :    \* combine with a time in Tehran's zone or none
  Do(13, <<s, u, w>>, <<1, Form, Day, s, u, w, IF w = 1 THEN 210 ELSE 0, 0, Sub>>)
WithDate == Kind = 2 /\ \E n \in One(Days), f \in One({0, 1}) :
  Do(14, <<n, f, 0>>, <<1, f, n, Sec, Mic, Aware, Off, Fold, Sub>>)
Rejoin == Kind = 1 /\ Do(15, Zero, v)                                          \* combine(x.date(), x.timetz())
Reorder == IsDay /\ \E f \in One({0, 1}) :                                     \* from the ordinal, in either form
  Do(16, <<f, 0, 0>>, IF Kind = 0 THEN <<0, f, Day, 0, 0, 0, 0, 0, Sub>> ELSE <<1, f, Day, 0, 0, 0, 0, 0, Sub>>)
Move == Kind = 1 /\ Aware # 0 /\ \E o \in One(Offsets) :                       \* the same instant elsewhere
  LET q == Plus(<<Day, Sec, Mic>>, <<0, (o - Off) * 60, 0>>) IN
  /\ ValidOrd(q[1]) /\ ValidOrd(Norm(Day, Sec - Off * 60, 0)[1]) /\ Clear(Norm(Day, Sec - Off * 60, 0)[1])
  /\ ~(Fold = 1 /\ o = Off /\ Aware = 1)
  /\ Do(17, <<o, 0, 0>>, [v EXCEPT ![3] = q[1], ![4] = q[2], ![5] = q[3], ![6] = 1, ![7] = o, ![8] = 0])
\* the same instant in the zone with saving, where the clock may show it the second time
MoveSummer == Kind = 1 /\ Aware # 0 /\
  LET i == Norm(Day, Sec - Off * 60, Mic)
      l == Plus(i, <<0, 60 * 210, 0>>)
  IN /\ ValidOrd(i[1]) /\ Clear(i[1]) /\ ValidOrd(l[1]) /\ Clear(l[1])
     /\ LET z == Summer(l[1])
            o == 60 * (z.st + (IF AtInstant(z, l[1], l[2]) THEN z.sv ELSE 0))
            q == Plus(i, <<0, o, 0>>)
        IN Do(25, Zero, IF Aware = 2 THEN v
                        ELSE [v EXCEPT ![3] = q[1], ![4] = q[2], ![5] = q[3], ![6] = 2,
                                       ![8] = IF OffsetAt(z, q[1], q[2], 0) = o THEN 0 ELSE 1])

\* there and back
Readable == IsDay /\ Form = 0 /\ Y >= 1
Copy == Kind \in 0..2 /\ \E how \in One(0..3) : Do(18, <<how, 0, 0>>, v)       \* copy, deepcopy, pickle 4 and 5
IsoBack == (Readable \/ (Kind = 2 /\ Mic = 0 /\ Aware = 0)) /\ Do(19, Zero, [v EXCEPT ![6] = IF Aware = 0 THEN 0 ELSE 1, ![8] = 0])
TextBack == Readable /\ Kind = 1 /\ Aware = 0 /\ Do(20, Zero, [v EXCEPT ![8] = 0])
\* the difference from another moment, added to that moment again
Around == Kind = 1 /\ \E n \in One(Days), s \in One(Seconds) :
  Clear(n) /\ Do(21, <<n, s, 0>>, [v EXCEPT ![8] = 0])

\* what has to be refused, leaving the value as it was
RefuseDays == IsDay /\ \E k \in One({MAXORD + 1 - Day, MINORD - 1 - Day, MAXORD + 400 - Day, MINORD - 400 - Day}), way \in One({0, 1}) :
  Do(22, <<k, way, 0>>, v)
RefusePut == \E c \in One({<<0, 0>>, <<0, 20>>, <<0, -1>>, <<1, 20>>, <<1, -1>>, <<1, 0>>, <<2, 25>>, <<2, -1>>, <<3, 60>>, <<3, -1>>,
                          <<4, 61>>, <<4, -1>>, <<5, 1000000>>, <<5, -1>>, <<6, 2>>, <<6, -1>>, <<7, 1>>, <<7, 6>>}) :
  /\ c[1] \in {0, 1, 7} => IsDay
  /\ c[1] \in 2..6 => Kind # 0
  /\ c = <<1, 0>> => FromOrd(Day)[3] > MonthDays(FromOrd(Day)[1], 0)            \* a day Ayyam-i-Ha does not have
  /\ c[1] = 7 => Form = 0                                                      \* a Vahid in a short date
  /\ Do(23, <<c[1], c[2], 0>>, v)
\* what cannot be mixed: a naive and an aware moment, and a date and a datetime
RefuseMix == Kind # 0 /\ ~(Kind = 2 /\ Aware = 2) /\ Do(24, Zero, v)

Next == Start \/ AddDays \/ AddTime \/ Nudge \/ PutDay \/ PutMonth \/ PutYear \/ PutLong \/ PutTime \/ PutZone \/ PutFold
        \/ ToDate \/ ToTime \/ WithTime \/ WithDate \/ Rejoin \/ Reorder \/ Move \/ MoveSummer \/ Copy \/ IsoBack \/ TextBack \/ Around
        \/ RefuseDays \/ RefusePut \/ RefuseMix
Spec == Init /\ [][Next]_vars
Proper == v[1] = 3 \/ (/\ v[1] = 2 \/ ValidDate(Fields(v)[1], Fields(v)[2], Fields(v)[3])
                       /\ v[4] \in 0..86399 /\ v[5] \in 0..999999 /\ v[7] \in -1439..1439)
Told == IF Len(hist) = Depth THEN PrintT(<<"B", hist>>) ELSE TRUE
=============================================================================
