------------------------------- MODULE DayCountMC -------------------------------
(* Laws of the day-count conventions, exhaustively over start dates in [Lo,Hi]  *)
(* and period lengths in Lens (the state is the pair <<s, e>>).                 *)
EXTENDS DayCount, TLC, Sequences, Json
CONSTANTS Lo, Hi, Lens, Dump
VARIABLES s, len
vars == <<s, len>>
e == s + len
Init == s = Lo /\ len \in Lens
Next == s < Hi /\ s' = s + 1 /\ UNCHANGED len
Spec == Init /\ [][Next]_vars
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
\* a calendar year apart is one year
WholeYears == \A b \in {"act/act", "30/360", "30e/360"} :
   LET t == AddMonths(s, 12) c == Civil(s) IN
     (c.d <= 28) => Eq(YearFrac(b, s, t, TRUE), <<1, 1>>) \/ (b = "act/act" /\ IsLeap(c.y) # IsLeap(c.y + 1))
Nonneg == \A b \in Bases : e >= s => Days(b, s, e, TRUE) >= 0 \/ (b \in {"30/360", "30e/360", "30e/360_isda"} /\ e - s <= 3)
Monotone == \A b \in Bases \ {"30e/360_isda"} : Days(b, s, e + 1, TRUE) >= Days(b, s, e, TRUE)
Zero == \A b \in {"act/360", "act/365", "act/366", "act/act", "30e/360"} : Days(b, s, s, TRUE) = 0
Additive == \A k \in {1, 30, 200} : \A b \in {"act/360", "act/365", "act/366", "act/act"} :
   LET m == s + k IN
     /\ Days(b, s, m, FALSE) + Days(b, m, m + len, FALSE) = Days(b, s, m + len, FALSE)
ActActAdditive ==
   LET x == YearFrac("act/act", s, s + 30, FALSE) y == YearFrac("act/act", s + 30, s + 90, FALSE) z == YearFrac("act/act", s, s + 90, FALSE) IN
     Civil(s).y = Civil(s + 90).y => x[2] = y[2] /\ y[2] = z[2] /\ x[1] + y[1] = z[1]
ThirtyBound == \A b \in {"30/360", "30e/360", "30e/360_isda"} : LET d == Days(b, s, e, FALSE) IN
     d - (e - s) <= 3 + (e - s) \div 300 /\ (e - s) - d <= 3 + (e - s) \div 60
IsdaAgrees == (Civil(s).m # 2 /\ Civil(e).m # 2) => Days("30e/360_isda", s, e, TRUE) = Days("30e/360", s, e, TRUE)
Emitted == Dump => PrintT("CASE " \o ToJson([s |-> s, e |-> e,
              d |-> [b \in Bases |-> <<Days(b, s, e, TRUE), Days(b, s, e, FALSE)>>],
              y |-> [b \in Bases |-> <<YearFrac(b, s, e, TRUE), YearFrac(b, s, e, FALSE)>>]]))
=============================================================================
