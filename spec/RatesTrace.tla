------------------------------ MODULE RatesTrace ------------------------------
(* Recorded conversions between zero rates, discount factors and compounding     *)
(* frequencies.                                                                   *)
EXTENDS Rates, Integers, Sequences, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
Init == c \in 1..Len(Cases) /\ verdict = "pending"
I == Cases[c].inp
O == Cases[c].out
Close(a, b) == RClose(a, b, "1e-10", "1e-11")
N == Len(I.rates)
All(P(_)) == \A i \in 1..N : P(i)
Fails ==
  IF ~O.ok THEN {"conversion succeeds"}
  ELSE IF Len(O.df) # N \/ Len(O.back) # N \/ Len(O.conv) # N \/ Len(O.dfconv) # N THEN {"one value per input"}
  ELSE (IF ~All(LAMBDA i : Close(O.df[i], RExp(LnDFOfRate(I.freq, I.years[i], I.rates[i])))) THEN {"discount factor of a zero rate"} ELSE {})
  \cup (IF ~All(LAMBDA i : Close(O.back[i], I.rates[i])) THEN {"zero rate of its own discount factor"} ELSE {})
  \cup (IF ~All(LAMBDA i : Close(O.conv[i], Convert(I.freq, I.to, I.rates[i]))) THEN {"equivalent rate"} ELSE {})
  \* a converted rate discounts the same (a conversion with a simple rate is for one year)
  \cup (IF ~All(LAMBDA i : Close(O.dfconv[i], O.df[i])) THEN {"a converted rate discounts identically"} ELSE {})
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
