------------------------------- MODULE OptionsMC -------------------------------
(* One FX option (and the option on a forward with the same terms) in a moving     *)
(* market: value relations in every reachable market.                               *)
EXTENDS Options, TLC
CONSTANTS Strikes, Vols, Taus, Rates, Shifts, MaxMoves
VARIABLES m, n
Init == /\ n = 0
        /\ \E cp \in {1, -1}, K \in Strikes, v \in Vols, tau \in Taus, rd \in Rates, rf \in Rates, mf \in {"none", "1.07"} :
             m = [S |-> "1.1", tau |-> tau, rd |-> rd, rf |-> rf, cp |-> cp, K |-> K, v |-> v, F |-> mf]
Move(x) == n < MaxMoves /\ n' = n + 1 /\ m' = x
Next == \/ \E x \in {"0.05", "-0.04"} : Move(BumpSpot(m, x))
        \/ \E x \in {"0.03", "-0.01"} : Move(BumpVol(m, x))
        \/ Move(BumpRate(m, "0.01")) \/ Move(Decay(m, "0.05"))
Spec == Init /\ [][Next]_<<m, n>>
C(x, y, rt, at) == RClose(x, y, rt, at)
Other == [m EXCEPT !.cp = -1 * m.cp]
AsFwd(sh) == [F |-> RSub(Fwd(m), sh), tau |-> m.tau, cp |-> m.cp, K |-> RSub(m.K, sh), v |-> m.v, sh |-> sh, ann |-> DiscF(Rd(m), m.tau)]
\* call minus put is the forward contract
Parity == C(RMul(m.cp, RSub(GKValue(m), GKValue(Other))), RSub(RMul(m.S, DiscF(m.rf, m.tau)), RMul(m.K, DiscF(Rd(m), m.tau))), "0", "1e-12")
\* never below intrinsic value, never above what it can deliver
Bounds == /\ RLe(GKIntrinsic(m), RAdd(GKValue(m), "1e-12"))
          /\ RLe(GKValue(m), IF m.cp = 1 THEN RMul(m.S, DiscF(m.rf, m.tau)) ELSE RMul(m.K, DiscF(Rd(m), m.tau)))
\* a Black-76 option on the forward is the same contract, whatever the shift split
SameAsForward == \A sh \in Shifts : LET b == AsFwd(sh) IN
   /\ C(B76Value(b), GKValue(m), "1e-11", "1e-14") /\ C(FIntrinsic(b), GKIntrinsic(m), "1e-11", "1e-14")
   /\ C(B76Vega(b), GKVega(m), "1e-9", "1e-13")
\* closed-form greeks are the changes of value over small moves
Small == "0.0001"
Greeks == \/ Expired(m)
  \/ /\ C(GKSpotDelta(m), RDiv(Central(GKValue, BumpSpot(m, Small), BumpSpot(m, "-0.0001")), RMul(Small, m.S)), "1e-4", "1e-5")
     /\ C(GKVega(m), RMul(100, Central(GKValue, BumpVol(m, Small), BumpVol(m, "-0.0001"))), "1e-4", "1e-6")
     /\ C(GKRho(m), RMul(100, Central(GKValue, BumpRate(m, Small), BumpRate(m, "-0.0001"))), "1e-4", "1e-6")
     /\ C(GKGamma(m), RMul(100, Central(GKSpotDelta, BumpSpot(m, Small), BumpSpot(m, "-0.0001"))), "1e-3", "1e-5")
     /\ m.F = "none" => C(GKTheta(m), RMul(Day1, RMul(10000, Central(GKValue, Decay(m, Small), Decay(m, "-0.0001")))), "1e-3", "1e-7")
Bach == LET b == [AsFwd("0") EXCEPT !.v = RMul(m.v, m.S)] IN
   /\ C(BachDelta(b), RMul(10000, Central(BachValue, [b EXCEPT !.F = RAdd(@, Small)], [b EXCEPT !.F = RSub(@, Small)])), "1e-4", "1e-5")
   /\ C(BachVega(b), Central(BachValue, BumpV(b, Small), BumpV(b, "-0.0001")), "1e-4", "1e-9")
   /\ C(BachTheta(b), RMul(Day1, RMul(10000, Central(BachValue, DecayB(b, Small), DecayB(b, "-0.0001")))), "1e-3", "1e-7")
\* a strike determines its delta and the at-the-money strike balances call and put
Atm == \A conv \in {"regular_forward", "premium_adjusted_forward", "premium_adjusted_spot"} :
   LET a == [m EXCEPT !.K = AtmStrike(conv, m)] IN
   C(QuotedDelta(conv, a), RNeg(QuotedDelta(conv, [a EXCEPT !.cp = -1 * m.cp])), "1e-10", "1e-12")
PremiumAdjusted == C(QuotedDelta("premium_adjusted_forward", m), RMul(RMul(m.cp, RDiv(m.K, Fwd(m))), RNormCdf(RMul(m.cp, GKd2(m)))), "1e-10", "1e-12")
\* variance is additive over adjacent periods and the interpolated volatility carries its forward volatility
Variance == \A v2 \in Vols : LET t2 == RAdd(m.tau, 1) fv == FwdVar(m.tau, m.v, t2, v2) mid == RAdd(m.tau, "0.4") IN
   /\ C(RAdd(RMul(Sq(m.v), m.tau), fv), RMul(Sq(v2), t2), "1e-12", "1e-14")
   /\ RLe(0, fv) => C(FwdVar(m.tau, m.v, mid, FlatForward(m.tau, m.v, t2, v2, mid)), fv, "1e-9", "1e-12")
=============================================================================
