----------------------------- MODULE FixingsTrace -----------------------------
(* Recorded coupon rates of swap index fixings and swap curves.                  *)
EXTENDS Fixings, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, phase
vars == <<curve, c, phase>>
AsSet(s) == {s[i] : i \in DOMAIN s}
I == Cases[c].inp
O == Cases[c].out
Fx == AsSet(I.fx)
Req == LET r == Cases[c].req IN [r EXCEPT !.cal = [mask |-> r.cal.mask, hols |-> AsSet(r.cal.hols)]]
Same(w, v) == IF RIsNaN(v) THEN RIsNaN(w) ELSE RClose(w, v, "1e-9", "1e-10")
N == Len(I.s)
Expect(i) == CASE I.op = "rfr" -> HistCoupon(Fx, I.basis, I.method, I.s[i], I.e[i])
               [] I.op = "term" -> InForce(Fx, I.s[i])
               [] I.op = "rfrcurve" -> RfrCoupon(Fx, curve, I.method, I.s[i], I.e[i])
               [] I.op = "termcurve" -> TermCoupon(Fx, curve, I.method, I.s[i], I.e[i])
               [] I.op = "df" -> DFOn(curve, I.s[i])
\* requests reaching beyond the fixings are refused (only stated for the fixings object itself)
Short == I.op = "rfr" /\ \E i \in 1..N : ~Available(Fx, I.s[i], I.e[i])
\* a swap curve is of one day count convention
Mixed == I.op \in {"rfrcurve", "termcurve", "df"} /\ I.fixbasis # I.basis
Fails ==
  IF Mixed THEN (IF O.ok THEN {"fixings of another day count than the curve are refused"} ELSE {})
  ELSE IF Short THEN (IF O.ok THEN {"periods beyond the available fixings are refused"} ELSE {})
  ELSE IF ~O.ok THEN {"coupon rates are served"}
  ELSE IF Len(O.out) # N THEN {"one rate per period"}
  ELSE (IF \E i \in 1..N : ~Same(O.out[i], Expect(i)) THEN {"coupon rate of its period"} ELSE {})
       \cup (IF ~O.untouched THEN {"the fixings are left as they were"} ELSE {})
TraceInit == c \in 1..Len(Cases) /\ phase = "build" /\ curve = <<>>
Make == phase = "build" /\ phase' = "compare" /\ UNCHANGED c /\ IF I.op \in {"rfrcurve", "termcurve", "df"} THEN Build(Req) ELSE UNCHANGED curve
Compare == /\ phase = "compare" /\ phase' = "done" /\ UNCHANGED <<c, curve>>
           /\ PrintT("DONE " \o ToJson(<<c>>))
           /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceNext == Make \/ Compare
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
