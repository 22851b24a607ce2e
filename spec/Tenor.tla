--------------------------------- MODULE Tenor ---------------------------------
(* Market tenors: the abstract syntax, the canonical text and the date each one  *)
(* reaches.  A tenor is [k |-> kind, n |-> Nat, m |-> Nat].                      *)
EXTENDS Dates, TLC
Specials == {"on", "tn", "sp", "sn", "sw"}
Units == {"d", "w", "m", "y"}
Kinds == Specials \cup Units \cup {"ym"}

Canonical(t) == CASE t.k \in Specials -> t.k
                  [] t.k \in Units -> ToString(t.n) \o t.k
                  [] t.k = "ym" -> ToString(t.n) \o "y" \o ToString(t.m) \o "m"

Reach(t, z) == CASE t.k = "on" -> z + 1
                 [] t.k = "tn" -> z + 2
                 [] t.k = "sp" -> z
                 [] t.k = "sn" -> z + 1
                 [] t.k = "sw" -> z + 5
                 [] t.k = "d" -> z + t.n
                 [] t.k = "w" -> z + 7 * t.n
                 [] t.k = "m" -> AddMonths(z, t.n)
                 [] t.k = "y" -> AddMonths(z, 12 * t.n)
                 [] t.k = "ym" -> AddMonths(z, 12 * t.n + t.m)

\* the spellings accepted for each word of a tenor
Spell(u) == CASE u = "d" -> {"d", "day", "days"}
              [] u = "w" -> {"w", "week", "weeks"}
              [] u = "m" -> {"m", "mon", "month", "months"}
              [] u = "y" -> {"y", "yr", "yrs", "year", "years"}
              [] u = "on" -> {"on", "overnight", "o/n"}
              [] u = "tn" -> {"tn", "tomnext", "tomorrow next", "tom/next", "t/n"}
              [] u = "sp" -> {"sp", "spot"}
              [] u = "sn" -> {"sn", "spot next", "spotnext", "s/n"}
              [] u = "sw" -> {"sw", "spot week", "spotweek", "s/w"}

\* written forms, as the sequence of their words
Forms(t) == CASE t.k \in Specials -> {<<w>> : w \in Spell(t.k)}
              [] t.k \in Units -> {<<ToString(t.n), w>> : w \in Spell(t.k)}
              [] t.k = "ym" -> {<<ToString(t.n), w, ToString(t.m), v>> : w \in Spell("y"), v \in Spell("m")}

\* every short sequence of words which is no tenor (two numerals, or "m" and "on", written together would be other words)
Words == {"1", "12", "d", "w", "months", "y", "on", "sn", "-", ".", "q"}
FewWords == {"1", "d", "m", "y", "-", "on"}
IsTenor(w) == \/ Len(w) = 1 /\ w[1] \in Specials
              \/ Len(w) = 2 /\ w[1] \in {"1", "12"} /\ w[2] \in {"d", "w", "m", "months", "y"}
              \/ Len(w) = 4 /\ w[1] \in {"1", "12"} /\ w[2] = "y" /\ w[3] \in {"1", "12"} /\ w[4] \in {"m", "months"}
Separate(w) == \A i \in 1..(Len(w) - 1) : ~(w[i] \in {"1", "12"} /\ w[i + 1] \in {"1", "12"}) /\ ~(w[i] = "m" /\ w[i + 1] = "on")
Garbage == {w \in [1..1 -> Words] \cup [1..2 -> Words] \cup [1..3 -> Words] \cup [1..4 -> FewWords] : Separate(w) /\ ~IsTenor(w)}
\* word sequences that are no tenor
Malformed == {<<>>, <<"m">>, <<"3">>, <<"3", "q">>, <<"1", "m", "1", "y">>, <<"-", "1", "m">>, <<"1", ".", "5", "y">>, <<"1", "d", "2", "w">>,
              <<"y", "1", "m">>, <<"1", "y", "6">>, <<"on", "1">>, <<"1", "on">>, <<"x">>, <<"1", "y", "2", "y">>, <<"1", "y", "3", "d">>, <<"1", "y", "2", "m", "3", "d">>,
              <<"sp", "sp">>, <<"1", "mm">>, <<"2", "w", "1", "d">>, <<"m", "1">>}
=============================================================================
