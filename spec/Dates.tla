-------------------------------- MODULE Dates --------------------------------
(* Proleptic Gregorian calendar over day numbers (day 0 = 1970-01-01, a      *)
(* Thursday), month arithmetic with end-of-month clipping, business-day      *)
(* calendars and the five business-day conventions.                          *)
EXTENDS Integers, Sequences, FiniteSets

NoDate == -9999999

DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 719468

Civil(z) ==
  LET zz  == z + 719468
      era == zz \div 146097
      doe == zz - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400
  IN  [y |-> IF m <= 2 THEN y + 1 ELSE y, m |-> m, d |-> d]

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] OTHER -> 31

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the date in month m (any integer offset from January of year y) with the day clipped to the month's length
ClippedDate(y, m0, d) ==
  LET y2 == y + (m0 \div 12)
      m2 == (m0 % 12) + 1
  IN  DaysFromCivil(y2, m2, Min2(d, MonthLen(y2, m2)))

AddMonths(z, k) == LET c == Civil(z) IN ClippedDate(c.y, c.m - 1 + k, c.d)

EndOfMonth(z) == LET c == Civil(z) IN z + MonthLen(c.y, c.m) - c.d

\* weekday, Monday = 1 .. Sunday = 7
Weekday(z) == ((z + 3) % 7) + 1

-----------------------------------------------------------------------------
\* A business-day calendar is [mask |-> <<7 x 0/1, Monday first>>, hols |-> set of day numbers]
IsBus(cal, z) == cal.mask[Weekday(z)] = 1 /\ z \notin cal.hols

RECURSIVE NextBus(_, _), PrevBus(_, _)
NextBus(cal, z) == IF IsBus(cal, z) THEN z ELSE NextBus(cal, z + 1)
PrevBus(cal, z) == IF IsBus(cal, z) THEN z ELSE PrevBus(cal, z - 1)

SameMonth(a, b) == LET x == Civil(a) y == Civil(b) IN x.y = y.y /\ x.m = y.m

Roll(cal, conv, z) ==
  CASE conv = "unadjusted"        -> z
    [] conv = "following"         -> NextBus(cal, z)
    [] conv = "preceding"         -> PrevBus(cal, z)
    [] conv = "modifiedfollowing" ->
         LET n == NextBus(cal, z) IN IF SameMonth(n, z) THEN n ELSE PrevBus(cal, z)
    [] conv = "modifiedpreceding" ->
         LET p == PrevBus(cal, z) IN IF SameMonth(p, z) THEN p ELSE NextBus(cal, z)

\* k business days after (k > 0) or before (k < 0) the business day z
RECURSIVE BusAdd(_, _, _)
BusAdd(cal, z, k) == IF k = 0 THEN z
                     ELSE IF k > 0 THEN BusAdd(cal, NextBus(cal, z + 1), k - 1)
                     ELSE BusAdd(cal, PrevBus(cal, z - 1), k + 1)

\* a lag of k business days counted from the rolled date
BusLag(cal, conv, z, k) ==
  IF conv = "unadjusted"
  THEN IF k = 0 THEN z ELSE BusAdd(cal, NextBus(cal, z), k)
  ELSE BusAdd(cal, Roll(cal, conv, z), k)

BusDaysBetween(cal, a, b) == Cardinality({z \in a .. (b - 1) : IsBus(cal, z)})
=============================================================================
