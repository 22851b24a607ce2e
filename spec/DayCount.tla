-------------------------------- MODULE DayCount --------------------------------
(* Day-count conventions over day numbers; year fractions as exact rationals.   *)
EXTENDS Dates

Bases == {"act/360", "act/365", "act/366", "act/act", "30/360", "30e/360", "30e/360_isda"}

IsLastOfFeb(c) == c.m = 2 /\ c.d = MonthLen(c.y, 2)

Thirty(a, b, d1, d2) == 360 * (b.y - a.y) + 30 * (b.m - a.m) + d2 - d1

\* term: the end date is the termination date (only matters for 30E/360 ISDA)
Days(basis, s, e, term) ==
  LET a == Civil(s) b == Civil(e) IN
  CASE basis \in {"act/360", "act/365", "act/366", "act/act"} -> e - s
    [] basis = "30/360" ->
         LET d1 == Min2(a.d, 30)
             d2 == IF b.d = 31 /\ d1 = 30 THEN 30 ELSE b.d
         IN Thirty(a, b, d1, d2)
    [] basis = "30e/360" -> Thirty(a, b, Min2(a.d, 30), Min2(b.d, 30))
    [] basis = "30e/360_isda" ->
         LET d1 == IF a.d = 31 \/ IsLastOfFeb(a) THEN 30 ELSE a.d
             d2 == IF b.d = 31 \/ (IsLastOfFeb(b) /\ ~term) THEN 30 ELSE b.d
         IN Thirty(a, b, d1, d2)

\* year fraction as <<numerator, denominator>>
YearFrac(basis, s, e, term) ==
  CASE basis \in {"30/360", "30e/360", "30e/360_isda", "act/360"} -> <<Days(basis, s, e, term), 360>>
    [] basis = "act/365" -> <<e - s, 365>>
    [] basis = "act/366" -> <<e - s, 366>>
    [] basis = "act/act" ->
         LET a == Civil(s) b == Civil(e)
             y1 == DaysInYear(a.y)  y2 == DaysInYear(b.y)
             first == DaysFromCivil(a.y + 1, 1, 1) - s
             last == e - DaysFromCivil(b.y, 1, 1)
         IN  <<(b.y - a.y - 1) * y1 * y2 + first * y2 + last * y1, y1 * y2>>
=============================================================================
