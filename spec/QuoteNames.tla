------------------------------ MODULE QuoteNames ------------------------------
(* How the volatility quotes of caps and floors are named: the one at the money,   *)
(* those at a distance from the forward, those at a strike; and the name each gets. *)
(* Distances and strikes are whole hundredths of a basis point.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000
\* n / 10^k in decimals, without needless zeros
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN "" ELSE Digits(n \div 10, k - 1) \o ToString(n % 10)
RECURSIVE Decimal(_, _)
Decimal(n, k) == IF k = 0 THEN ToString(n)
                 ELSE IF n % 10 = 0 THEN Decimal(n \div 10, k - 1)
                 ELSE ToString(n \div Pow10(k)) \o "." \o Digits(n % Pow10(k), k)

\* the name of a distance or strike
Canonical(n) == (IF n < 0 THEN "-" ELSE "") \o Decimal(Abs(n), 2) \o "bps"

Seps == {"", " ", "-"}
Afters == {""} \cup {s \o "f" : s \in {"", "-", " "}} \cup {s \o "forward" : s \in {" ", "-"}}
AtmTexts == {"a" \o s \o "t" \o s \o "m" \o f : s \in Seps, f \in Afters} \cup {"at" \o s \o "the" \o s \o "money" \o f : s \in {" ", "-"}, f \in Afters}
Units == {"bps", "bp", "%"}
Amount(n, unit) == IF unit = "%" THEN Decimal(Abs(n), 4) ELSE Decimal(Abs(n), 2)
Signs(n) == IF n < 0 THEN {"-"} ELSE {"", "+"}
\* a distance may be given from the forward by name or not
Leads == {"", "atm", "atmf ", "at the money ", "at-the-money-forward "}
Spellings(n, lead) == {lead \o s \o gap \o Amount(n, u) \o before \o u : s \in Signs(n), gap \in {"", " "}, u \in Units, before \in {"", " "}}
=============================================================================
