------------------------------- MODULE Calendars -------------------------------
(* Business-day calendars of currencies and locales.  A market is closed on the  *)
(* days of its own weekend and on its own holidays; several markets together are  *)
(* open only when each of them is.  No market at all is the plain Monday-Friday    *)
(* calendar without holidays.                                                      *)
EXTENDS Dates
\* a market: [wend |-> set of weekdays (Monday = 1), hols |-> set of day numbers]
OpenIn(m, z) == Weekday(z) \notin m.wend /\ z \notin m.hols
PlainWeek == [wend |-> {6, 7}, hols |-> {}]
Open(ms, z) == IF ms = {} THEN OpenIn(PlainWeek, z) ELSE \A m \in ms : OpenIn(m, z)
\* the same as one calendar
Joint(ms) == IF ms = {} THEN [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {}]
             ELSE [mask |-> [w \in 1..7 |-> IF \E m \in ms : w \in m.wend THEN 0 ELSE 1], hols |-> UNION {m.hols : m \in ms}]
=============================================================================
