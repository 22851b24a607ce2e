----------------------------- MODULE ExposureTrace -----------------------------
(* Recorded grids.                                                                *)
EXTENDS Exposure, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
AsSet(s) == {s[i] : i \in DOMAIN s}
I == Cases[c].inp
O == Cases[c].out
G == [cd |-> I.cd, dels |-> AsSet(I.dels), freq |-> I.freq, pillar |-> AsSet(I.pillar), pillared |-> I.pillared, value |-> I.value, with |-> I.with]
If(p, s) == IF p THEN {} ELSE {s}
Fails == IF ~Served(G) THEN If(~O.ok, "a request without a grid is refused")
  ELSE IF ~O.ok THEN {"a grid is served"}
  ELSE LET got == AsSet(O.x) IN
       If(Sampled(G) \subseteq got, "every sampling date is in the grid")
       \cup If(Extra(G) \subseteq got, "every delivery is seen when its value ends")
       \cup If(got \subseteq Grid(G), "nothing else is in the grid")
       \cup If(\A i \in 1 .. (Len(O.x) - 1) : O.x[i] < O.x[i + 1], "dates are in order and appear once")
       \cup If(O.kept, "the request is left as it was")
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
