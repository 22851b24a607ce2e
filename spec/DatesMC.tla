------------------------------- MODULE DatesMC -------------------------------
(* Exhaustive check of the date theory over a window of days: round trip of  *)
(* the civil calendar, month arithmetic and business-day laws.               *)
EXTENDS Dates, TLC
CONSTANTS Lo, Hi
VARIABLE z
Cal == [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {x \in Lo..Hi : x % 23 \in {0, 1, 2}}]
Convs == {"unadjusted", "following", "preceding", "modifiedfollowing", "modifiedpreceding"}
Init == z \in {Lo + 32 * k : k \in 0 .. ((Hi - Lo) \div 32)}
Next == z < Hi /\ (z + 1 - Lo) % 32 # 0 /\ z' = z + 1
Spec == Init /\ [][Next]_z
RoundTrip == LET c == Civil(z) IN DaysFromCivil(c.y, c.m, c.d) = z /\ c.d \in 1..MonthLen(c.y, c.m) /\ c.m \in 1..12
Succ == LET c == Civil(z) e == Civil(z + 1) IN
        \/ e = [c EXCEPT !.d = @ + 1]
        \/ e.d = 1 /\ c.d = MonthLen(c.y, c.m) /\ (e.y * 12 + e.m = c.y * 12 + c.m + 1)
MonthLaw == \A k \in {-25, -12, -3, -1, 0, 1, 2, 6, 12, 37} :
   LET c == Civil(z) e == Civil(AddMonths(z, k)) IN
     /\ e.y * 12 + e.m = c.y * 12 + c.m + k
     /\ e.d = Min2(c.d, MonthLen(e.y, e.m))
     /\ (c.d <= 28 => AddMonths(AddMonths(z, k), -k) = z)
RollLaw == \A conv \in Convs \ {"unadjusted"} :
   /\ IsBus(Cal, Roll(Cal, conv, z))
   /\ Roll(Cal, conv, Roll(Cal, conv, z)) = Roll(Cal, conv, z)
   /\ (IsBus(Cal, z) => Roll(Cal, conv, z) = z)
   /\ (conv = "following" => Roll(Cal, conv, z) >= z)
   /\ (conv = "preceding" => Roll(Cal, conv, z) <= z)
   /\ (conv \in {"modifiedfollowing", "modifiedpreceding"} => SameMonth(z, Roll(Cal, conv, z)))
   /\ Roll(Cal, conv, z) <= Roll(Cal, conv, z + 1) \/ conv \in {"modifiedfollowing", "modifiedpreceding"}
LagLaw == \A k \in {1, 2, 5} : LET s == NextBus(Cal, z) IN
             /\ BusDaysBetween(Cal, s, BusAdd(Cal, s, k)) = k
             /\ BusAdd(Cal, BusAdd(Cal, s, k), -k) = s
EomLaw == LET c == Civil(EndOfMonth(z)) IN c.d = MonthLen(c.y, c.m) /\ SameMonth(z, EndOfMonth(z))
=============================================================================
