----------------------------- MODULE CalendarsTrace -----------------------------
(* Recorded calendars: the open days of the returned calendar over a window.      *)
EXTENDS Calendars, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
AsSet(s) == {s[i] : i \in DOMAIN s}
I == Cases[c].inp
O == Cases[c].out
Ms == {[wend |-> AsSet(I.markets[i].wend), hols |-> AsSet(I.markets[i].hols)] : i \in DOMAIN I.markets}
Fails ==
  IF ~I.known THEN (IF O.ok THEN {"a calendar that is not set up is refused"} ELSE {})
  ELSE IF ~O.ok THEN {"calendar is served"}
  ELSE LET j == Joint(Ms) open == AsSet(O.open) IN
       (IF \E z \in I.lo .. I.hi : z \in open /\ ~IsBus(j, z) THEN {"closed on every weekend and holiday of each market"} ELSE {})
       \cup (IF \E z \in I.lo .. I.hi : z \notin open /\ IsBus(j, z) THEN {"open when every market is open"} ELSE {})
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
