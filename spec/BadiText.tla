----------------------------- MODULE BadiText -----------------------------
(* Names and number texts. Characters outside ASCII are written {hex}.    *)
EXTENDS Integers, Sequences, TLC
DayName == <<"Jal{e1}l", "Jam{e1}l", "Kam{e1}l", "Fi{1e0d}{101}l", "`Id{101}l", "Istijl{101}l", "Istiql{101}l">>
DayAbv == <<"Jal", "Jam", "Kam", "Fi{1e0d}", "Id{101}", "Isj", "Isq">>
MonthName == <<"Ayy{e1}m-i-H{e1}", "Bah{e1}", "Jal{e1}l", "Jam{e1}l", "'A{1e93}amat", "N{fa}r", "Ra{1e25}mat", "Kalim{e1}t", "Kam{e1}l", "Asm{e1}'", "'Izzat", "Mash{ed}yyat", "'Ilm", "Qudrat", "Qawl", "Mas{e1}{2019}il", "Sharaf", "Sul{1e6d}{e1}n", "Mulk", "'Al{e1}'">>
MonthAbv == <<"Ayy", "Bah", "Jal", "Jam", "A{1e93}a", "N{fa}r", "Ra{1e25}", "Kal", "Kam", "Asm", "Izz", "Mas", "Ilm", "Qud", "Qaw", "Mas", "Sha", "Sul", "Mul", "Al{e1}">>
\* decimal text of n with at least w characters, zeros after the sign
Zeros(k) == CASE k <= 0 -> "" [] k = 1 -> "0" [] k = 2 -> "00" [] k = 3 -> "000"
              [] k = 4 -> "0000" [] k = 5 -> "00000" [] OTHER -> "000000"
Abs(n) == IF n < 0 THEN -n ELSE n
Pad(n, w) == LET t == ToString(Abs(n)) IN
  IF n < 0 THEN "-" \o Zeros(w - 1 - Len(t)) \o t ELSE Zeros(w - Len(t)) \o t
Spc(n, w) == LET t == ToString(n) IN
  (IF Len(t) < w THEN (IF w - Len(t) = 1 THEN " " ELSE "  ") ELSE "") \o t
P2(n) == Pad(n, 2)
Year4(y) == Pad(y, IF y < 0 THEN 5 ELSE 4)      \* sign not counted
YearIso(y) == Pad(y, 4)                         \* sign counted
===========================================================================
