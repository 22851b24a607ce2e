-------------------------------- MODULE PathsMC --------------------------------
(* All paths with shocks on a three-point quadrature (exact for the first five     *)
(* moments of the normal law): moments over one step from every reachable state.   *)
EXTENDS Paths, TLC
CONSTANTS Steps, NParams, Dts, Vols
VARIABLES n, S, V, d, h, dt, meth
vars == <<n, S, V, d, h, dt, meth>>
R3 == "1.7320508075688772"
Z == <<RNeg(R3), R(0), R3>>
W == <<RRatio(1, 6), RRatio(2, 3), RRatio(1, 6)>>
E(F(_)) == RSum([i \in 1..3 |-> RMul(W[i], F(Z[i]))])
P(mu, kappa, theta, eps, rho) == [mu |-> mu, kappa |-> kappa, theta |-> theta, eps |-> eps, rho |-> rho]
AllParams == <<P("0.02", "1.5", "0.04", "0.3", "-0.5"), P("0", "0.4", "0.02", "1", "0.7"), P("-0.05", "4", "0.1", "0.2", "0.95"), P("0.01", "0.1", "0.01", "1.4", "0")>>
Params == {AllParams[i] : i \in 1..NParams}
Init == /\ n = 0 /\ S = "1.2" /\ V \in Vols /\ d = "0" /\ h \in Params /\ dt \in Dts /\ meth \in {"qe", "absorb", "reflect"}
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<h, dt, meth>>
        /\ \E i \in 1..3, j \in 1..3 :
             LET v1 == IF meth = "qe" THEN VNext(h, V, dt, Z[j]) ELSE EulerV(h, V, dt, Z[i], Z[j]) IN
             /\ S' = IF meth = "qe" THEN QeSpot(h, S, V, v1, dt, Z[i]) ELSE EulerS(h, S, V, dt, Z[i])
             /\ V' = IF meth = "qe" THEN v1 ELSE Floor(meth, v1)
             /\ d' = CsNext(d, h.kappa, h.eps, dt, RMul(n, dt), Z[i])
Spec == Init /\ [][Next]_vars
NonNegative == RLe(0, V)
\* the quadratic law matches conditional mean and variance exactly, the exponential law has the right mass at zero and mean
Matched == LET m == VMean(h, V, dt) psi == Psi(h, V, dt) IN
  IF RLe(psi, PsiC)
  THEN /\ RClose(E(LAMBDA z : VQuad(m, psi, z)), m, "1e-10", "1e-14")
       /\ RClose(E(LAMBDA z : Sq(RSub(VQuad(m, psi, z), m))), VVar(h, V, dt), "1e-8", "1e-16")
  ELSE LET p == PZero(psi) IN
       /\ RLt(0, p) /\ RLt(p, 1)
       \* mean (1-p)/beta = m and second moment 2(1-p)/beta^2 with beta = (1-p)/m
       /\ RClose(RSub(RDiv(RMul(2, Sq(m)), RSub(1, p)), Sq(m)), VVar(h, V, dt), "1e-8", "1e-16")
\* drift of the spot: a martingale without drift in the Euler scheme and for GBM, and mean reversion of the variance
EulerMean == meth = "qe" \/ (/\ RClose(E(LAMBDA z : EulerS(h, S, V, dt, z)), RMul(S, RAdd(1, RMul(h.mu, dt))), "1e-12", "0")
                            /\ RClose(E(LAMBDA z : RSum([i \in 1..3 |-> RMul(W[i], EulerV(h, V, dt, z, Z[i]))])), RAdd(V, Prod3(h.kappa, RSub(h.theta, V), dt)), "1e-10", "1e-14")
                            \* correlation of the two shocks
                            /\ RClose(E(LAMBDA z : RSum([i \in 1..3 |-> RMul(W[i], RMul(z, Corr(h.rho, z, Z[i])))])), h.rho, "1e-12", "1e-14")
                            /\ RClose(E(LAMBDA z : RSum([i \in 1..3 |-> RMul(W[i], Sq(Corr(h.rho, z, Z[i])))])), "1", "1e-12", "0"))
\* (the spot is floored by nothing in an Euler scheme, so it is bounded below only for moderate shocks)
GbmMartingale == RClose(E(LAMBDA z : GbmNext(S, h.mu, "0.1", "0.25", z)), RMul(S, RExp(RMul(h.mu, "0.25"))), "1e-8", "0")
\* without volatility the spot stays on the forward curve; a day of segments equals its steps
CsFlat == \A m \in 1..3 : /\ RClose(CsDay(R(0), h.kappa, R(0), m, R(0), 0), "0", "0", "1e-15")
                          /\ RClose(CsShock(d, CsDay(d, h.kappa, h.eps, m, R(n), 0), h.kappa, h.eps, m, R(n)), "0", "0", "1e-12")
CsOne == \A i \in 1..3 : RClose(CsShock(d, CsNext(d, h.kappa, h.eps, R(1), R(n), Z[i]), h.kappa, h.eps, 1, R(n)), Z[i], "1e-9", "1e-12")
\* mean reverting deviations stay centred so that the expected spot is the forward (to second order in the step)
=============================================================================
