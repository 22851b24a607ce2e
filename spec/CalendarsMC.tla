------------------------------ MODULE CalendarsMC ------------------------------
(* The joint calendar as a growing set of markets, over a small world.            *)
EXTENDS Calendars, TLC
CONSTANTS Wends, Hols, Lo, Hi
VARIABLE ms
Markets == [wend : Wends, hols : Hols]
Init == ms = {}
Next == Cardinality(ms) < 3 /\ \E m \in Markets : ms' = ms \cup {m}
Spec == Init /\ [][Next]_ms
Days == Lo .. Hi
SameCalendar == \A z \in Days : IsBus(Joint(ms), z) = Open(ms, z)
\* adding a market never opens a closed day, and closes exactly its own closed days
Adding == ms # {} => \A m \in Markets : \A z \in Days : IsBus(Joint(ms \cup {m}), z) = (IsBus(Joint(ms), z) /\ OpenIn(m, z))
Alone == \A m \in Markets : \A z \in Days : IsBus(Joint({m}), z) = OpenIn(m, z)
=============================================================================
