----------------------------- MODULE HullWhiteMC -----------------------------
(* A path of the exact scheme without shocks over curves and models, and the       *)
(* products priced at every time it reaches.                                       *)
EXTENDS HullWhite
CONSTANTS As, Vs, Interps, Steps
VARIABLES h, i, r, acc
vars == <<curve, h, i, r, acc>>
Nowhere == [mask |-> <<1, 1, 1, 1, 1, 1, 1>>, hols |-> {}]
Req(x, tilt) == [cd |-> 19738, x |-> "days", y |-> "zero", freq |-> "continuous", basis |-> "act/365", interp |-> x, extrap |-> "none", cal |-> Nowhere,
           pillars |-> [k \in 1..6 |-> [n |-> 365 * k * k, q |-> RAdd("0.02", RMul(tilt, k))]]]
Dt == RRatio(1, 10)
T(k) == RRatio(k, 10)
Init == /\ \E x \in Interps, tilt \in {"0", "0.003", "-0.002"} : curve = Built(Req(x, tilt))
        /\ \E a \in As, v \in Vs : h = [a |-> a, v |-> v]
        /\ i = 0 /\ acc = R(0) /\ r = Short0(curve)
Next == /\ i < Steps /\ i' = i + 1 /\ UNCHANGED <<curve, h>>
        /\ r' = ExactShort(h, r, Theta(curve, h, T(i)), Theta(curve, h, T(i + 1)), Dt, 0)
        /\ acc' = Accrued(acc, r, r', Dt)
Spec == Init /\ [][Next]_vars
t == T(i)
F(k) == T(i + k)
\* the mean of the paths, and what the bond is worth on it: the curve, but for the convexity of the discount factor
Fitted == /\ RClose(r, MeanShort(curve, h, t), "0", "2e-6")
          /\ RClose(RNeg(acc), RSub(LnAt(curve, t), RMul(Half, RSum([k \in 1..i |-> RMul(Dt, RMul(Sq(h.v), RMul(Half, RAdd(Sq(B(h, T(k - 1), t)), Sq(B(h, T(k), t))))))]))), "0", RMul(t, "1e-4"))
          /\ RClose(Theta(curve, h, t), ThetaStep(curve, h, "1e-5", t), "0", "1e-6")
          /\ (i = 0 => BondPrice(curve, h, 0, F(7), Short0(curve)) = P(curve, F(7)) \/ RClose(BondPrice(curve, h, 0, F(7), Short0(curve)), P(curve, F(7)), "1e-12", "0"))
\* the forward price of a bond is its mean under the law of the short rate at t (Simpson)
Nodes == 120
Z(k) == RAdd(-9, RRatio(18 * k, Nodes))
W(k) == RMul(RRatio(18, 3 * Nodes), IF k \in {0, Nodes} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2)
Sd == RSqrt(Var(h, t))
Mean(G(_)) == RSum([k \in 1..(Nodes + 1) |-> RMul(W(k - 1), RMul(RNormPdf(Z(k - 1)), G(RMul(Sd, Z(k - 1)))))])
Martingale == \A n \in {5, 20} : LET G(x) == BondAt(curve, h, t, F(n), x) IN RClose(Mean(G), RDiv(P(curve, F(n)), P(curve, t)), "1e-8", "0")
\* payoffs, integrated from the exercise point
PartMean(cp, x, G(_)) == \* the integral of G over rates below (cp 1) or above (cp -1) x
  LET z0 == RMax(-9, RMin(9, RDiv(x, Sd))) z1 == IF cp = 1 THEN R(-9) ELSE R(9) w == RDiv(RAbs(RSub(z1, z0)), Nodes) IN
  RSum([k \in 1..(Nodes + 1) |-> LET y == RAdd(z0, RMul(RRatio(k - 1, Nodes), RSub(z1, z0))) IN
     RMul(RMul(RDiv(w, 3), IF k \in {1, Nodes + 1} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2), RMul(RNormPdf(y), G(RMul(Sd, y))))])
Strike(n, up) == RMul(up, RDiv(P(curve, F(n)), P(curve, t)))
OptionIsPayoff == i > 0 /\ RLt(0, h.v) => \A cp \in {1, -1}, up \in {"0.98", "1", "1.01"} :
  LET k == Strike(15, up) x == Critical(curve, h, t, <<[s |-> F(15), c |-> RDiv(1, k)]>>)
      G(y) == RMul(cp, RSub(BondAt(curve, h, t, F(15), y), k)) IN
  RClose(BondOption(curve, h, cp, t, F(15), k), RMul(P(curve, t), PartMean(cp, x, G)), "1e-6", "1e-9")
Fl(q) == Flows(<<F(5), F(10), F(15), F(20)>>, <<Half, Half, Half, Half>>, q, F(20))
SwaptionIsPayoff == i > 0 /\ RLt(0, h.v) => \A cp \in {1, -1}, q \in {"0.01", "0.03"} :
  LET G(y) == RMul(cp, RSub(FlowsAt(curve, h, t, Fl(q), y), 1)) IN
  RClose(Swaption(curve, h, cp, t, Fl(q)), RMul(P(curve, t), PartMean(cp, Critical(curve, h, t, Fl(q)), G)), "1e-6", "1e-9")
Parity == \A q \in {"0.01", "0.03"} :
  /\ i > 0 => RClose(RSub(Swaption(curve, h, 1, t, Fl(q)), Swaption(curve, h, -1, t, Fl(q))), SwapValue(curve, 1, t, Fl(q)), "1e-9", "1e-12")
  /\ LET k == Strike(10, RAdd(1, q)) IN RClose(RSub(BondOption(curve, h, 1, t, F(10), k), BondOption(curve, h, -1, t, F(10), k)), RSub(P(curve, F(10)), RMul(k, P(curve, t))), "1e-9", "1e-12")
  /\ RClose(RSub(Optionlet(curve, h, 1, t, F(5), q), Optionlet(curve, h, -1, t, F(5), q)), RSub(P(curve, t), RMul(RAdd(1, RMul(q, Half)), P(curve, F(5)))), "1e-9", "1e-12")
\* a swap of one period is a forward rate agreement
OnePeriod == i > 0 => \A q \in {"0.01", "0.03"}, cp \in {1, -1} :
  RClose(Swaption(curve, h, -cp, t, Flows(<<F(5)>>, <<Half>>, q, F(5))), Optionlet(curve, h, cp, t, F(5), q), "1e-7", "1e-12")
Bounds == \A cp \in {1, -1}, up \in {"0.9", "1", "1.1"} : LET k == Strike(12, up) v == BondOption(curve, h, cp, t, F(12), k) IN
  RLe(Pos(RMul(cp, RSub(P(curve, F(12)), RMul(k, P(curve, t))))), RAdd(v, "1e-15")) /\ RLe(v, RAdd("1e-15", IF cp = 1 THEN P(curve, F(12)) ELSE RMul(k, P(curve, t))))
=============================================================================
