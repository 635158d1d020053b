----------------------------- MODULE MC_Clock -----------------------------
EXTENDS Clock
\* quick: windows around the ends, the year 0, the reform, today and the max
StartsQ == {-1842, -265, -4, 168, 1150}
SpanQ == 12
\* thorough: every day of every year
StartsT == {-1842 + 100 * i : i \in 0..30}
SpanT == 100
===========================================================================
