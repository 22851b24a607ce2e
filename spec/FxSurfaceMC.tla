----------------------------- MODULE FxSurfaceMC -----------------------------
(* All quote sets and query orders of a small market.                              *)
EXTENDS FxSurface
CONSTANTS Vols, MaxAsk
VARIABLES mkt, qs1, qs2, asked
vars == <<curve, smiles, mkt, qs1, qs2, asked>>
CD == 19738
QSets == {[q \in {Atm, Q("call", 25), Q("put", 25)} |-> IF q = Atm THEN "0.1" ELSE IF q.k = "call" THEN v ELSE w] : v \in Vols, w \in Vols}
   \cup {[q \in {Atm, Q("riskreversal", 25), Q("butterfly", 25), Q("riskreversal", 5), Q("butterfly", 5)} |-> IF q = Atm THEN "0.1" ELSE IF q.k = "butterfly" THEN "0.003" ELSE IF q.d = 25 THEN RSub(v, "0.1") ELSE RSub(w, "0.1")] : v \in Vols, w \in Vols}
   \cup {[q \in {Atm, Q("riskreversal", 25), Q("butterfly", 25), Q("call", 25)} |-> IF q = Atm THEN "0.1" ELSE IF q.k = "call" THEN "0.2" ELSE RSub(v, "0.09")] : v \in Vols}
Flat(r) == Built([cd |-> CD, x |-> "days", y |-> "zero", freq |-> "continuous", basis |-> "act/365", interp |-> LnDF, extrap |-> "none", cal |-> [mask |-> <<1,1,1,1,1,1,1>>, hols |-> {}],
                  pillars |-> <<[n |-> 400, q |-> r]>>])
Init == /\ curve = <<>> /\ smiles = {} /\ asked = 0
        /\ qs1 \in QSets /\ qs2 \in {q \in QSets : DOMAIN q = DOMAIN qs1}
        /\ mkt = [cd |-> CD, lag |-> 2, sd |-> CD + 2, cal |-> [mask |-> <<1,1,1,1,1,0,0>>, hols |-> {CD + 86}], basis |-> "act/365", spot |-> "0.66", fc |-> {[d |-> CD, f |-> "0.66"], [d |-> CD + 100, f |-> "0.67"]}, dom |-> Flat("0.05"), for |-> Flat("0.03"),
                  pillars |-> {[d |-> CD + 30, conv |-> "regular_spot", vols |-> SmileVols(qs1, SmileOrder(qs1))], [d |-> CD + 90, conv |-> "regular_forward", vols |-> SmileVols(qs2, SmileOrder(qs2))]}]
Next == asked < MaxAsk /\ asked' = asked + 1 /\ UNCHANGED <<curve, mkt, qs1, qs2>> /\ \E z \in {CD + 30, CD + 31, CD + 89, CD + 90} : Ask(mkt, z)
Spec == Init /\ [][Next]_vars
Order == SmileOrder(qs1)
\* strikes rise along the smile: the order of 100/delta
Ordered == \A i \in 1..(Len(Order) - 1) : RLt(RDiv(100, SignedDelta(Order[i])), RDiv(100, SignedDelta(Order[i + 1])))
Strategies == \A d \in Deltas(qs1, "riskreversal") : Q("call", d) \in DOMAIN qs1 \/
   (/\ RClose(RSub(SmileVol(qs1, 1, d), SmileVol(qs1, -1, d)), qs1[Q("riskreversal", d)], "1e-12", "1e-15")
    /\ RClose(RSub(RMul("0.5", RAdd(SmileVol(qs1, 1, d), SmileVol(qs1, -1, d))), qs1[Atm]), qs1[Q("butterfly", d)], "1e-12", "1e-15"))
AtPillars == \A e \in smiles : e.d \in ExpDays(mkt) => e.s.vols = PillarOn(mkt, e.d).vols /\ e.s.conv = PillarOn(mkt, e.d).conv
\* every kept smile lies between those of the pillars around it in total variance
Between == \A e \in smiles : \A i \in 1..Len(e.s.vols) :
   LET w(v, t) == RMul(Sq(v), t) x == w(e.s.vols[i], e.s.tau) a == PillarOn(mkt, CD + 30).vols[i] b == PillarOn(mkt, CD + 90).vols[i] IN
   RClose(x, RAdd(w(a, Years(mkt, CD + 30)), RMul(RRatio(e.d - CD - 30, 60), RSub(w(b, Years(mkt, CD + 90)), w(a, Years(mkt, CD + 30))))), "1e-11", "1e-14")
OneSmilePerDay == \A e, g \in smiles : e.d = g.d => e = g
ForwardLine == /\ ForwardOn(mkt.fc, CD + 500) = "0.67" /\ ForwardOn(mkt.fc, CD - 1) = "0.66" /\ RClose(ForwardOn(mkt.fc, CD + 50), "0.665", "1e-12", "0")
Through == LET ks == [i \in 1..Len(Order) |-> RAdd("0.5", RRatio(i, 10))] vs == SmileVols(qs1, Order) IN \A i \in 1..Len(Order) : RClose(SmileAt(ks, vs, ks[i]), vs[i], "1e-10", "0")
\* simulated rates: whatever the dates on the way, the steps add up to the law of the last rate, whose mean is its forward
SimDates == {CD + 34, CD + 59, CD + 60, CD + 88}
SimLaw == \A ds \in SUBSET SimDates \ {{}} : LET g == SimDeliveries(mkt, ds) f == [i \in 1..Len(g) |-> FixingOf(mkt, g[i])] k == CHOOSE i \in 1..Len(Order) : Order[i].d = 50 n == Len(g) IN
   /\ Simulable(mkt, ds) /\ f[1] = CD /\ \A i \in 1..(n-1) : f[i] <= f[i+1] /\ g[i] < g[i+1] /\ ~RLt(StepVar(mkt, k, f[i], f[i+1]), 0)
   /\ \A i \in 2..n : f[i] < g[i] /\ (IsBus(mkt.cal, g[i]) => Workday(mkt.cal, f[i], mkt.lag) = g[i])
   /\ LET u == RSum([i \in 1..(n-1) |-> StepMean(mkt, k, f[i], f[i+1])]) w == RSum([i \in 1..(n-1) |-> StepVar(mkt, k, f[i], f[i+1])]) IN
      RClose(RMul(mkt.spot, RExp(RAdd(u, RMul("0.5", w)))), ForwardOn(mkt.fc, f[n]), "1e-12", "0")
   /\ ~Simulable(mkt, ds \cup {CD + 1}) /\ ~Simulable(mkt, ds \cup {CD + 130})
=============================================================================
