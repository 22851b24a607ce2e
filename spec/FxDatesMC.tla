------------------------------- MODULE FxDatesMC -------------------------------
(* Round trips of spot-date resolution and ordering of quote dates, exhaustively *)
(* over a window of curve dates and holiday patterns.                            *)
EXTENDS FxDates
CONSTANTS Lo, Hi
VARIABLES z, hp
Cal == [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {x \in (Lo - 30)..(Hi + 450) : x % hp \in {0, 1}}]
Init == z = Lo /\ hp \in {5, 9, 11, 31}
Next == z < Hi /\ z' = z + 1 /\ UNCHANGED hp
Spec == Init /\ [][Next]_<<z, hp>>
RT == IsBus(Cal, z) => \A k \in 0..3 :
   LET a == Resolve(Cal, [cd |-> z, sd |-> NoDate, off |-> k, pair |-> "audusd"])
       b == Resolve(Cal, [cd |-> NoDate, sd |-> a.sd, off |-> k, pair |-> "audusd"])
       i == Resolve(Cal, [cd |-> z, sd |-> a.sd, off |-> -1, pair |-> "audusd"])
   IN /\ IsBus(Cal, a.sd) /\ a.sd >= z /\ b.cd = z /\ i.off = k
      /\ Resolve(Cal, [cd |-> z, sd |-> a.sd, off |-> k, pair |-> "audusd"]).consistent
Tn == {[k |-> "on", n |-> 0, m |-> 0], [k |-> "w", n |-> 1, m |-> 0], [k |-> "m", n |-> 1, m |-> 0], [k |-> "y", n |-> 1, m |-> 0]}
Quotes == \A t \in Tn : LET q == QuoteDates(Cal, z, 2, [del |-> NoDate, fix |-> NoDate, t |-> t]) IN
   /\ IsBus(Cal, q.fix) /\ IsBus(Cal, q.del) /\ q.fix <= q.del /\ BusDaysBetween(Cal, q.fix, q.del) = 2
   /\ QuoteDates(Cal, z, 2, [del |-> NoDate, fix |-> q.fix, t |-> t]).del = q.del
=============================================================================
