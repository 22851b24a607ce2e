----------------------------- MODULE QuoteNamesMC -----------------------------
(* Every spelling of every distance, for replay into the code; sets of quotes.      *)
EXTENDS QuoteNames, Json
CONSTANTS Above, Below \* distances up and down, as magnitudes
Ns == Above \cup {-x : x \in Below}
VARIABLES n, kind, text
vars == <<n, kind, text>>
Init == n \in Ns /\ kind = "start" /\ text = ""
SayAtm == kind = "start" /\ n = (CHOOSE x \in Ns : TRUE) /\ kind' = "atm" /\ text' \in AtmTexts /\ UNCHANGED n
SayDistance == kind = "start" /\ n # 0 /\ kind' = "distance" /\ (\E l \in Leads : text' \in Spellings(n, l)) /\ UNCHANGED n
SayStrike == kind = "start" /\ n # 0 /\ kind' = "strike" /\ text' \in Spellings(n, "") /\ UNCHANGED n
Next == SayAtm \/ SayDistance \/ SayStrike
Spec == Init /\ [][Next]_vars
OneNameEach == kind = "start" => \A x \in Ns : x # n => Canonical(x) # Canonical(n)
OneMeaningEach == kind = "start" => \A x \in Ns : x # n => Spellings(n, "") \cap Spellings(x, "") = {}
\* a name is itself a spelling of what it names
NamesStay == kind = "start" /\ n # 0 => Canonical(n) \in Spellings(n, "")
Emitted == kind # "start" => PrintT("CASE " \o ToJson([kind |-> kind, n |-> n, text |-> text, name |-> IF kind = "atm" THEN "atmf" ELSE Canonical(n)]))
=============================================================================
