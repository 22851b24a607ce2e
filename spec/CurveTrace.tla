------------------------------ MODULE CurveTrace ------------------------------
(* Recorded histories of a zero curve object: build, then queries and shifts in  *)
(* any order; after every event the answers are compared with those of the       *)
(* specified curve.                                                               *)
EXTENDS Curve, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, phase
vars == <<curve, c, l, phase>>
AsSet(s) == {s[i] : i \in DOMAIN s}
Req == LET r == Cases[c].req IN [r EXCEPT !.cal = [mask |-> r.cal.mask, hols |-> AsSet(r.cal.hols)]]
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ phase = "act" /\ curve = <<>>
Ev == Cases[c].events[l]

\* a value the specification leaves undefined ("nan") is a missing answer
Same(w, v) == IF RIsNaN(v) THEN RIsNaN(w) ELSE RClose(w, v, "1e-9", "1e-8")
SameSeq(out, n, F(_)) == Len(out) = n /\ \A i \in 1..n : Same(out[i], F(i))

BuildFails == LET o == Cases[c].built IN
  IF ~o.ok THEN {"a valid curve is built"}
  ELSE (IF ~o.untouched THEN {"the caller's data is left as it was"} ELSE {})
\* one value gives a number, a container gives a container of its length; forward rates are always a container
ShapeFails == IF Ev.op \in {"df", "zero", "dfy", "zeroy", "inst"} /\ Ev.scalar # Ev.single THEN {"scalar in, scalar out"}
              ELSE IF Ev.op \in {"fwd", "avg"} /\ Ev.scalar THEN {"forward rates are a vector"} ELSE {}
EvFails ==
  IF ~Ev.ok THEN {"query is served"}
  ELSE ShapeFails \cup
       CASE Ev.op = "df" -> IF ~SameSeq(Ev.out, Len(Ev.dates), LAMBDA i : DFOn(curve, Ev.dates[i])) THEN {"discount factor of each date"} ELSE {}
         [] Ev.op = "zero" -> IF ~SameSeq(Ev.out, Len(Ev.dates), LAMBDA i : RateOn(curve, Ev.freq, Ev.dates[i])) THEN {"zero rate of each date"} ELSE {}
         [] Ev.op = "dfy" -> IF ~SameSeq(Ev.out, Len(Ev.years), LAMBDA i : RExp(LnAt(curve, Ev.years[i]))) THEN {"discount factor at a time"} ELSE {}
         [] Ev.op = "zeroy" -> IF ~SameSeq(Ev.out, Len(Ev.years), LAMBDA i : RateAt(curve, Ev.freq, Ev.years[i])) THEN {"zero rate at a time"} ELSE {}
         [] Ev.op = "inst" -> IF ~SameSeq(Ev.out, Len(Ev.years), LAMBDA i : InstFwdAt(curve, Ev.years[i])) THEN {"instantaneous forward rate"} ELSE {}
         [] Ev.op = "fwd" ->
              LET n == Len(Ev.s) IN
              IF ~SameSeq(Ev.out, n, LAMBDA i : FwdOn(curve, Ev.kind, Ev.s[i], Ev.e[i], Yf(curve.basis, Ev.s[i], Ev.e[i], i = n))) THEN {"forward rate"} ELSE {}
         [] Ev.op = "avg" -> IF ~SameSeq(Ev.out, Len(Ev.s), LAMBDA i : AverageOn(curve, Ev.kind, Ev.s[i], Ev.e[i])) THEN {"average forward rate"} ELSE {}
         [] Ev.op = "shift" -> {}

Act == /\ phase = "act" /\ phase' = "compare" /\ UNCHANGED <<c, l>>
       /\ IF l = 0 THEN Build(Req) ELSE IF Ev.op = "shift" THEN Shift(Ev.b) ELSE UNCHANGED curve
Compare == /\ phase = "compare" /\ phase' = "act" /\ l' = l + 1 /\ UNCHANGED <<c, curve>>
           /\ \A f \in (IF l = 0 THEN BuildFails ELSE EvFails) : PrintT("FAIL " \o ToJson(<<c, f>>))
           /\ l = Len(Cases[c].events) => PrintT("DONE " \o ToJson(<<c>>))
TraceNext == l <= Len(Cases[c].events) /\ (Act \/ Compare)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
