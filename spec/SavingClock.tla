---------------------------- MODULE SavingClock ----------------------------
(***************************************************************************)
(* Clocks of zones with daylight saving, moved a minute at a time.  The    *)
(* instant moves on; the clock moves with it and is put forward or back    *)
(* when it shows the time of a change.  A time that is shown again has     *)
(* fold 1.  The rule of Saving must give the offset of the clock from      *)
(* nothing but what it shows, so that instants and readings are one to     *)
(* one; it is to tell ambiguous readings, and only these, by their folds.  *)
(***************************************************************************)
EXTENDS Saving, FiniteSets
SavingSet == {-60, -30, 0, 30, 60, 120}
CONSTANTS Standards, Savings, Begins, Lengths, Ends, Span
VARIABLES z, u, w, on, back
vars == <<z, u, w, on, back>>
\* u: minutes of the instant, w: what the clock shows, both from the beginning of day n1 = 0;
\* on: saving; back: minutes until the clock has shown everything a second time
Zones == {[st |-> a, sv |-> b, n1 |-> 0, m1 |-> c, n2 |-> d, m2 |-> e] :
            a \in Standards, b \in Savings, c \in Begins, d \in Lengths, e \in Ends}
\* saving lasts longer than what is saved
EndAt == z.n2 * 1440 + z.m2
Init == /\ z \in {q \in Zones : q.n2 * 1440 + q.m2 > q.m1 + 400}
        /\ w = -300 /\ u = -300 - z.st /\ on = FALSE /\ back = 0
\* the clock shows v next; is it put forward or back there?
Tick ==
  /\ u < Span
  /\ u' = u + 1
  /\ LET v == w + 1 IN
     CASE ~on /\ v = z.m1 /\ u' + z.st < z.m1 + 1 -> w' = v + z.sv /\ on' = TRUE /\ back' = Max2(-z.sv, 0)
       [] on /\ v = EndAt -> w' = v - z.sv /\ on' = FALSE /\ back' = Max2(z.sv, 0)
       [] OTHER -> w' = v /\ on' = on /\ back' = Max2(back - 1, 0)
  /\ UNCHANGED z
Next == Tick
Spec == Init /\ [][Next]_vars
Day == w \div 1440
Second == (w % 1440) * 60
Fold == IF back > 0 THEN 1 ELSE 0
Offset(f) == OffsetAt(z, Day, Second, f)
Rule == Offset(Fold) = 60 * (w - u)
\* from the instant alone: what the clock shows there, and the fold it has
Shown == LET s == u + z.st
             k == AtInstant(z, s \div 1440, (s % 1440) * 60)
             o == IF k THEN z.st + z.sv ELSE z.st
         IN k = on /\ u + o = w /\ (Offset(0) # 60 * o) = (Fold = 1)
Honest == Saves(z, Day, Second, Fold) = on
\* a reading is ambiguous when the other fold stands for an instant at which the clock shows it
Ambiguous == Offset(0) # Offset(1)
Twice == back > 0 => Ambiguous
Never == Ambiguous => (z.sv # 0 /\ Offset(0) - Offset(1) = 60 * (IF z.sv > 0 THEN z.sv ELSE -z.sv))
============================================================================
