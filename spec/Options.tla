-------------------------------- MODULE Options --------------------------------
(* European options: Garman-Kohlhagen (FX), Black-76 with a log-normal shift,     *)
(* Bachelier.  A market is a state, the moves of a market (spot, volatility, rate,*)
(* passage of a day) are its transitions, a greek is the change of value over a    *)
(* transition.                                                                     *)
EXTENDS Real64, Integers, Sequences, FiniteSets

Half == "0.5"
DiscF(r, tau) == RExp(RNeg(RMul(r, tau)))
Sq(a) == RMul(a, a)
SV(v, tau) == RMul(v, RSqrt(tau))
Prod3(a, b, c) == RMul(a, RMul(b, c))
Pos(a) == RMax(a, 0)

-----------------------------------------------------------------------------
\* undiscounted option on a forward f with log-normal standard deviation s > 0
LnD1(f, k, s) == RDiv(RAdd(RLn(RDiv(f, k)), RMul(Half, Sq(s))), s)
LnD2(f, k, s) == RSub(LnD1(f, k, s), s)
LnValue(cp, f, k, s) == RMul(cp, RSub(RMul(f, RNormCdf(RMul(cp, LnD1(f, k, s)))), RMul(k, RNormCdf(RMul(cp, LnD2(f, k, s))))))
\* the same with normal standard deviation s > 0
NValue(cp, f, k, s) == LET d == RDiv(RSub(f, k), s) IN
  RAdd(Prod3(cp, RSub(f, k), RNormCdf(RMul(cp, d))), RMul(s, RNormPdf(d)))

-----------------------------------------------------------------------------
\* FX option m: [S, tau, rd, rf, cp, K, v]; F = "none" or the market forward, which then implies the domestic rate
Rd(m) == IF m.F = "none" THEN m.rd ELSE RAdd(RDiv(RLn(RDiv(m.F, m.S)), m.tau), m.rf)
Fwd(m) == IF m.F = "none" THEN RMul(m.S, RExp(RMul(RSub(m.rd, m.rf), m.tau))) ELSE m.F
Expired(m) == RLe(m.tau, 0)
GKValue(m) == IF Expired(m) THEN Pos(RMul(m.cp, RSub(m.S, m.K)))
              ELSE RMul(DiscF(Rd(m), m.tau), LnValue(m.cp, Fwd(m), m.K, SV(m.v, m.tau)))
GKIntrinsic(m) == IF Expired(m) THEN GKValue(m)
                  ELSE Pos(RMul(m.cp, RSub(RMul(m.S, DiscF(m.rf, m.tau)), RMul(m.K, DiscF(Rd(m), m.tau)))))
GKd1(m) == LnD1(Fwd(m), m.K, SV(m.v, m.tau))
GKd2(m) == LnD2(Fwd(m), m.K, SV(m.v, m.tau))
\* closed forms, normalised as quoted: vega and rho per 1%, gamma per 1% of spot, theta per calendar day
Day1 == RRatio(100, 36525)
GKFwdDelta(m) == RMul(m.cp, RNormCdf(RMul(m.cp, GKd1(m))))
GKSpotDelta(m) == RMul(DiscF(m.rf, m.tau), GKFwdDelta(m))
GKVega(m) == RMul("0.01", RMul(RMul(m.S, DiscF(m.rf, m.tau)), RMul(RSqrt(m.tau), RNormPdf(GKd1(m)))))
GKGamma(m) == RMul("0.01", RDiv(RMul(DiscF(m.rf, m.tau), RNormPdf(GKd1(m))), SV(m.v, m.tau)))
GKRho(m) == RMul("0.01", RMul(RMul(m.cp, m.K), Prod3(m.tau, DiscF(Rd(m), m.tau), RNormCdf(RMul(m.cp, GKd2(m))))))
GKTheta(m) == RMul(Day1, RSum(<<
   RNeg(RDiv(Prod3(RMul(m.S, DiscF(m.rf, m.tau)), RNormPdf(GKd1(m)), m.v), RMul(2, RSqrt(m.tau)))),
   Prod3(RMul(m.cp, m.rf), RMul(m.S, DiscF(m.rf, m.tau)), RNormCdf(RMul(m.cp, GKd1(m)))),
   RNeg(Prod3(RMul(m.cp, Rd(m)), RMul(m.K, DiscF(Rd(m), m.tau)), RNormCdf(RMul(m.cp, GKd2(m)))))>>))
\* moves of the market
BumpSpot(m, x) == [m EXCEPT !.S = RMul(@, RAdd(1, x)), !.F = IF @ = "none" THEN @ ELSE RMul(@, RAdd(1, x))]
BumpVol(m, x) == [m EXCEPT !.v = RAdd(@, x)]
BumpRate(m, x) == [m EXCEPT !.rd = RAdd(@, x), !.F = IF @ = "none" THEN @ ELSE RMul(@, RExp(RMul(x, m.tau)))]
Decay(m, x) == [m EXCEPT !.tau = RSub(@, x)]
\* greeks by central difference over a move
Central(V(_), up, down) == RMul(Half, RSub(V(up), V(down)))
NumSpotDelta(m) == RDiv(Central(GKValue, BumpSpot(m, "0.01"), BumpSpot(m, "-0.01")), RMul("0.01", m.S))
NumFwdDelta(m) == RDiv(NumSpotDelta(m), DiscF(m.rf, m.tau))
NumVega(m) == Central(GKValue, BumpVol(m, "0.01"), BumpVol(m, "-0.01"))
NumRho(m) == Central(GKValue, BumpRate(m, "0.01"), BumpRate(m, "-0.01"))
NumTheta(m) == Central(GKValue, Decay(m, Day1), Decay(m, RNeg(Day1)))
NumGamma(m) == Central(GKSpotDelta, BumpSpot(m, "0.01"), BumpSpot(m, "-0.01"))

-----------------------------------------------------------------------------
\* the delta a strike is quoted by
QuotedDelta(conv, m) ==
  LET spot == conv \in {"regular_spot", "premium_adjusted_spot"}
      d == IF spot THEN GKSpotDelta(m) ELSE GKFwdDelta(m)
      premium == IF spot THEN RDiv(GKValue(m), m.S) ELSE RDiv(GKValue(m), RMul(m.S, DiscF(m.rf, m.tau)))
  IN IF conv \in {"premium_adjusted_spot", "premium_adjusted_forward"} THEN RSub(d, premium) ELSE d
\* at the money: the strike whose call and put deltas cancel
AtmStrike(conv, m) == RMul(Fwd(m), RExp(RMul(IF conv \in {"premium_adjusted_spot", "premium_adjusted_forward"} THEN "-0.5" ELSE Half, RMul(Sq(m.v), m.tau))))

-----------------------------------------------------------------------------
\* Black-76 option b: [F, tau, cp, K, v, sh, ann] (log-normal volatility v of F + sh); Bachelier: v the normal volatility
B76Value(b) == IF RLe(b.tau, 0) THEN RMul(b.ann, Pos(RMul(b.cp, RSub(b.F, b.K))))
               ELSE RMul(b.ann, LnValue(b.cp, RAdd(b.F, b.sh), RAdd(b.K, b.sh), SV(b.v, b.tau)))
BachValue(b) == IF RLe(b.tau, 0) THEN RMul(b.ann, Pos(RMul(b.cp, RSub(b.F, b.K))))
                ELSE RMul(b.ann, NValue(b.cp, b.F, b.K, SV(b.v, b.tau)))
FIntrinsic(b) == RMul(b.ann, Pos(RMul(b.cp, RSub(b.F, b.K))))
B76D1(b) == LnD1(RAdd(b.F, b.sh), RAdd(b.K, b.sh), SV(b.v, b.tau))
B76Delta(b) == Prod3(b.ann, b.cp, RNormCdf(RMul(b.cp, B76D1(b))))
B76Vega(b) == RMul("0.01", RMul(RMul(b.ann, RAdd(b.F, b.sh)), RMul(RSqrt(b.tau), RNormPdf(B76D1(b)))))
BachD(b) == RDiv(RSub(b.F, b.K), SV(b.v, b.tau))
BachDelta(b) == Prod3(b.ann, b.cp, RNormCdf(RMul(b.cp, BachD(b))))
BachVega(b) == RMul("0.0001", RMul(RMul(b.ann, RSqrt(b.tau)), RNormPdf(BachD(b))))
BachTheta(b) == RMul(RMul("-0.5", Day1), RDiv(Prod3(b.ann, b.v, RNormPdf(BachD(b))), RSqrt(b.tau)))
\* the forward moves by 1% of the shifted forward
BumpF(b, x) == [b EXCEPT !.F = RAdd(@, RMul(x, RAdd(@, b.sh)))]
BumpV(b, x) == [b EXCEPT !.v = RAdd(@, x)]
DecayB(b, x) == [b EXCEPT !.tau = RSub(@, x)]
B76NumDelta(b) == RDiv(Central(B76Value, BumpF(b, "0.01"), BumpF(b, "-0.01")), RMul("0.01", RAdd(b.F, b.sh)))
B76NumVega(b) == Central(B76Value, BumpV(b, "0.01"), BumpV(b, "-0.01"))

-----------------------------------------------------------------------------
\* volatility in time: variance v^2 t accrues over time
FwdVar(t1, v1, t2, v2) == RDiv(RSub(RMul(Sq(v2), t2), RMul(Sq(v1), t1)), RSub(t2, t1))
FlatForward(t1, v1, t2, v2, t) ==
  IF RLe(t, t1) THEN v1 ELSE IF RLe(t2, t) THEN v2
  ELSE RSqrt(RDiv(RAdd(RMul(Sq(v1), t1), RMul(FwdVar(t1, v1, t2, v2), RSub(t, t1))), t))
=============================================================================
