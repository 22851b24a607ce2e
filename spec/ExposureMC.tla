------------------------------ MODULE ExposureMC ------------------------------
(* Deliveries are booked one after another; the grid is made anew after each.      *)
EXTENDS Exposure
CONSTANTS Starts, Offsets, Most_
VARIABLES g
Req == [cd : Starts, dels : {{}}, freq : Freqs, pillar : {{}}, pillared : {FALSE}, value : BOOLEAN, with : {"none", "last", "after"}]
Init == g \in Req
Book == \E o \in Offsets : Cardinality(g.dels) < Most_ /\ g.cd + o \notin g.dels /\ g' = [g EXCEPT !.dels = @ \cup {g.cd + o}]
Spec == Init /\ [][Book]_g
Open == g.dels # {}
S == Sampled(g)
\* sampled from the curve date to the last delivery, never further apart than one period, nothing outside
Ends == Open => g.cd \in S /\ SetMax(g.dels) \in S /\ \A z \in S : g.cd <= z /\ z <= SetMax(g.dels)
Gap == CASE g.freq = "1d" -> 1 [] g.freq = "1w" -> 7 [] g.freq = "1m" -> 31 [] g.freq = "3m" -> 92 [] g.freq = "6m" -> 184 [] OTHER -> 366
Dense == Open => LET q == InOrder(S) IN \A i \in 1 .. (Len(q) - 1) : q[i] < q[i + 1] /\ q[i + 1] - q[i] <= Gap
\* each sampling date keeps the day of the curve date, or the end of a shorter month
Day == Open /\ g.freq \in {"1m", "3m", "6m", "12m"} => \A z \in S \ {SetMax(g.dels)} : LET a == Civil(g.cd) b == Civil(z) IN b.d = Min2(a.d, MonthLen(b.y, b.m))
\* every delivery is seen on its last day of value, or just after it
Seen == Open => \A z \in g.dels : (g.with = "last" => IF g.value THEN z \in Grid(g) ELSE z - 1 \in Grid(g)) /\ (g.with = "after" => IF g.value THEN z + 1 \in Grid(g) ELSE z \in Grid(g))
Only == Open /\ g.with = "none" => Grid(g) = S
\* a delivery before the last one adds at most its own date
Stable == [][Open /\ SetMax(g.dels') = SetMax(g.dels) => Grid(g) \subseteq Grid(g)' /\ Cardinality(Grid(g)') <= Cardinality(Grid(g)) + 1]_g
===============================================================================
