------------------------------- MODULE Exposure -------------------------------
(* The dates on which FX exposures are measured: from the curve date to the last  *)
(* delivery at a sampling frequency (or the given dates), and with them, if asked  *)
(* for, the last day on which each delivery has value or the day after it.         *)
EXTENDS Dates, FiniteSets, SequencesExt
Freqs == {"1d", "1w", "1m", "3m", "6m", "12m"}
\* the n-th sampling date after the curve date
Sample(f, z, n) == CASE f = "1d" -> z + n [] f = "1w" -> z + 7 * n [] f = "1m" -> AddMonths(z, n)
                     [] f = "3m" -> AddMonths(z, 3 * n) [] f = "6m" -> AddMonths(z, 6 * n) [] f = "12m" -> AddMonths(z, 12 * n)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
\* a request: [cd, dels, freq ("none" for the dates g.pillar), pillar, pillared (they are given), value (a payment has value on its date), with: "none", "last", "after"]
Served(g) == IF g.freq = "none" THEN g.pillared ELSE g.freq \in Freqs /\ g.cd < SetMax(g.dels)
Most(g) == (SetMax(g.dels) - g.cd) \div (CASE g.freq = "1d" -> 1 [] g.freq = "1w" -> 7 [] g.freq = "1m" -> 28 [] g.freq = "3m" -> 89 [] g.freq = "6m" -> 180 [] OTHER -> 365)
Sampled(g) == IF g.freq = "none" THEN g.pillar
              ELSE {z \in {Sample(g.freq, g.cd, n) : n \in 0 .. Most(g)} : z < SetMax(g.dels)} \cup {SetMax(g.dels)}
LastDay(g, z) == IF g.value THEN z ELSE z - 1
Extra(g) == CASE g.with = "none" -> {} [] g.with = "last" -> {LastDay(g, z) : z \in g.dels} [] g.with = "after" -> {LastDay(g, z) + 1 : z \in g.dels}
Grid(g) == Sampled(g) \cup Extra(g)
InOrder(S) == SetToSortSeq(S, <)
===============================================================================
