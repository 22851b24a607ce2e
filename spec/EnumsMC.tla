-------------------------------- MODULE EnumsMC --------------------------------
(* Every spelling of every member in every presentation, every foreign word and  *)
(* the missing value, for replay into the code.                                  *)
EXTENDS Enums, Json
CONSTANTS Decors
VARIABLES c, v, text, decor, kind
vars == <<c, v, text, decor, kind>>
Init == c \in Classes /\ v \in Values(c) /\ text = "" /\ decor = "" /\ kind = "start"
Say == kind = "start" /\ text' \in Spellings(c, v) /\ decor' \in Decors /\ kind' = "means" /\ UNCHANGED <<c, v>>
SayForeign == kind = "start" /\ v = (CHOOSE x \in Values(c) : TRUE) /\ text' \in Foreign(c) /\ decor' \in Decors /\ kind' = "foreign" /\ UNCHANGED <<c, v>>
SayNothing == kind = "start" /\ v = (CHOOSE x \in Values(c) : TRUE) /\ kind' = "missing" /\ UNCHANGED <<c, v, text, decor>>
Next == Say \/ SayForeign \/ SayNothing
Spec == Init /\ [][Next]_vars
\* no text has two meanings
Unambiguous == kind = "start" => \A w \in Values(c) : w # v => Spellings(c, v) \cap Spellings(c, w) = {}
DefaultIsMember == Default(c) # "" => Default(c) \in Values(c)
Emitted == kind # "start" => PrintT("CASE " \o ToJson([c |-> c, v |-> v, text |-> text, decor |-> decor, kind |-> kind, dflt |-> Default(c), number |-> Number(c, v)]))
=============================================================================
