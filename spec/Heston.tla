-------------------------------- MODULE Heston --------------------------------
(* European options under the Heston model                                         *)
(*    dS = (r-q) S dt + sqrt(V) S dW1,  dV = kappa (theta - V) dt + vv sqrt(V) dW2, *)
(* dW1 dW2 = rho dt, valued as the Garman-Kohlhagen price at the expected variance  *)
(* plus the Fourier integral of the difference of the two characteristic functions. *)
EXTENDS Options

\* h: [S, tau, r, q, cp, K, v0, vv, kappa, theta, rho, lam]; lam the market price of variance risk
Risk(h) == IF RClose(h.lam, "0", "0", "0") THEN h
           ELSE [h EXCEPT !.kappa = RAdd(h.kappa, h.lam), !.theta = RDiv(RMul(h.kappa, h.theta), RAdd(h.kappa, h.lam)), !.lam = "0"]
Forward(h) == RMul(h.S, RExp(RMul(RSub(h.r, h.q), h.tau)))
\* expected variance up to expiry
MeanVar(h) == RAdd(RMul(h.theta, h.tau), RDiv(RMul(RSub(h.v0, h.theta), RSub(1, RExp(RNeg(RMul(h.kappa, h.tau))))), h.kappa))

Re(a) == <<a, "0">>
\* the exponent of the characteristic function of ln(S_T / F) at u, that is ln E exp(i u ln(S_T / F))
LnChf(h, u) ==
  LET iu == CMul(<<"0", "1">>, u)
      b0 == CSub(Re(h.kappa), CMul(Re(RMul(h.rho, h.vv)), iu))
      d == CSqrt(CAdd(CMul(b0, b0), CMul(Re(Sq(h.vv)), CAdd(iu, CMul(u, u)))))
      b == CSub(b0, d)
      g == CDiv(b, CAdd(b0, d))
      e == CExp(CMul(Re(RNeg(h.tau)), d))
      den == CSub(Re("1"), CMul(g, e))
      long == CMul(Re(RDiv(RMul(h.kappa, h.theta), Sq(h.vv))), CSub(CMul(Re(h.tau), b), CMul(Re("2"), CLn(CDiv(den, CSub(Re("1"), g))))))
      now == CMul(Re(RDiv(h.v0, Sq(h.vv))), CDiv(CMul(b, CSub(Re("1"), e)), den))
  IN CAdd(long, now)

\* nodes v = sinh(s) / sqrt(w): s at the middles of n cells of [0, 4]
CONSTANT Nodes
Sinh(s) == RMul(Half, RSub(RExp(s), RExp(RNeg(s))))
Cosh(s) == RMul(Half, RAdd(RExp(s), RExp(RNeg(s))))
Correction(h, w) ==
  LET x == RLn(RDiv(Forward(h), h.K))
      term(j) == LET s == RRatio(4 * (2 * j - 1), 2 * Nodes)
                     v == RDiv(Sinh(s), RSqrt(w))
                     q == RAdd(Sq(v), "0.25")
                     f == CSub(CExp(LnChf(h, <<v, "-0.5">>)), Re(RExp(Prod3("-0.5", w, q))))
                 IN RDiv(RMul(CMul(CExp(<<"0", RMul(v, x)>>), f)[1], Cosh(s)), q)
      total == RSum([j \in 1..Nodes |-> term(j)])
  IN RDiv(Prod3(DiscF(h.r, h.tau), RSqrt(RMul(Forward(h), h.K)), Prod3(RRatio(4, Nodes), total, RDiv(1, RSqrt(w)))), "3.141592653589793")
GKOf(h, w) == RMul(DiscF(h.r, h.tau), LnValue(h.cp, Forward(h), h.K, RSqrt(w)))
HestonValue(h0) == LET h == Risk(h0) w == MeanVar(h) IN RSub(GKOf(h, w), Correction(h, w))

\* moments of order p of the spot stay finite for all time
Moment(h, p) == LET a == RSub(h.kappa, Prod3(h.rho, h.vv, p)) IN RLt(0, a) /\ RLe(RMul(Sq(h.vv), RMul(p, RSub(p, 1))), Sq(a))
\* Feller ratio: above 1 the variance stays away from zero
Feller(h) == RDiv(RMul(2, RMul(h.kappa, h.theta)), Sq(h.vv))

-----------------------------------------------------------------------------
\* a calibration: [v0, vv, kappa, theta, rho, lam, iv, sse] fitted to volatilities vs
Admissible(k, vs) == /\ RClose(k.v0, Sq(vs[Len(vs) \div 2 + 1]), "1e-14", "0")
                     /\ RLe(0, k.vv) /\ RLe(0, k.theta) /\ RLe(RAbs(k.rho), 1) /\ k.kappa = "1.5" /\ RClose(k.lam, "0", "0", "0")
SquaredErrors(vs, iv) == RSum([i \in 1..Len(vs) |-> Sq(RSub(vs[i], iv[i]))])
\* the model price of strike k as a volatility v
AsVol(h, v) == RClose(HestonValue(h), GKOf(h, RMul(Sq(v), h.tau)), "1e-7", RMul("1e-9", h.S))
=============================================================================
