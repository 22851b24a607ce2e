--------------------------------- MODULE Paths ---------------------------------
(* Simulated paths: a path is a behaviour of a process whose transitions are       *)
(* labelled with the standard normal shocks driving them.                          *)
EXTENDS Real64, Integers, Sequences, FiniteSets

Sq(a) == RMul(a, a)
Prod3(a, b, c) == RMul(a, RMul(b, c))

-----------------------------------------------------------------------------
\* geometric Brownian motion: price x, drift mu, volatility s over a step of length dt with shock z
GbmNext(x, mu, s, dt, z) == RMul(x, RExp(RAdd(RMul(RSub(mu, RMul("0.5", Sq(s))), dt), Prod3(s, RSqrt(dt), z))))

-----------------------------------------------------------------------------
\* Heston, parameters h = [mu, kappa, theta, eps, rho]; state: spot S and variance V
\* exact conditional mean and variance of the variance after dt
VMean(h, V, dt) == RAdd(h.theta, RMul(RSub(V, h.theta), RExp(RNeg(RMul(h.kappa, dt)))))
VVar(h, V, dt) == LET e == RExp(RNeg(RMul(h.kappa, dt))) IN
  RAdd(RDiv(RMul(RMul(V, Sq(h.eps)), RMul(e, RSub(1, e))), h.kappa),
       RDiv(RMul(RMul(h.theta, Sq(h.eps)), Sq(RSub(1, e))), RMul(2, h.kappa)))
Psi(h, V, dt) == RDiv(VVar(h, V, dt), Sq(VMean(h, V, dt)))
PsiC == "1.5"
\* the two moment-matched laws of the quadratic exponential scheme
VQuad(m, psi, z) == LET t == RDiv(2, psi) b2 == RAdd(RSub(t, 1), RSqrt(RMul(t, RSub(t, 1)))) IN
  RMul(RDiv(m, RAdd(1, b2)), Sq(RAdd(RSqrt(b2), z)))
PZero(psi) == RDiv(RSub(psi, 1), RAdd(psi, 1))
VExp(m, psi, z) == LET p == PZero(psi) u == RNormCdf(z) IN
  IF RLe(u, p) THEN R(0) ELSE RMul(RDiv(m, RSub(1, p)), RLn(RDiv(RSub(1, p), RSub(1, u))))
VNext(h, V, dt, z) == LET psi == Psi(h, V, dt) m == VMean(h, V, dt) IN IF RLe(psi, PsiC) THEN VQuad(m, psi, z) ELSE VExp(m, psi, z)
\* log-spot given the variance at both ends of the step (central discretisation)
QeSpot(h, S, V, W, dt, z) ==
  LET g == RMul(RMul("0.5", dt), RSub(RDiv(RMul(h.kappa, h.rho), h.eps), "0.5"))
      r == RDiv(h.rho, h.eps)
      c == RMul(RMul("0.5", dt), RSub(1, Sq(h.rho)))
  IN RMul(S, RExp(RSum(<<RMul(h.mu, dt), RNeg(Prod3(r, RMul(h.kappa, h.theta), dt)),
                         RMul(RSub(g, r), V), RMul(RAdd(g, r), W), RMul(RSqrt(RMul(c, RAdd(V, W))), z)>>)))
\* Euler steps; a negative variance is absorbed at zero or reflected before it is used
Floor(meth, V) == IF meth = "absorb" THEN RMax(V, 0) ELSE RAbs(V)
Corr(rho, z1, z2) == RAdd(RMul(rho, z1), RMul(RSqrt(RSub(1, Sq(rho))), z2))
EulerV(h, V, dt, z1, z2) == RSum(<<V, Prod3(h.kappa, RSub(h.theta, V), dt), RMul(RMul(h.eps, RSqrt(RMul(V, dt))), Corr(h.rho, z1, z2))>>)
EulerS(h, S, V, dt, z1) == RMul(S, RAdd(1, RAdd(RMul(h.mu, dt), RMul(RSqrt(RMul(V, dt)), z1))))

-----------------------------------------------------------------------------
\* Clewlow-Strickland one factor: log deviation d of the spot from the forward curve, mean reversion a, volatility s
CsPull(a, dt) == RSub(1, RMul(a, dt))
CsDrift(a, s, dt, tau) == RMul(Prod3("-0.25", Sq(s), RAdd(1, RExp(RMul(-2, RMul(a, tau))))), dt)
CsNext(d, a, s, dt, tau, z) == RSum(<<RMul(CsPull(a, dt), d), CsDrift(a, s, dt, tau), Prod3(s, RSqrt(dt), z)>>)
\* over a day of m segments starting on day k: deterministic part and standard deviation
RECURSIVE CsDay(_, _, _, _, _, _)
CsDay(d, a, s, m, k, i) == IF i = m THEN d
  ELSE CsDay(CsNext(d, a, s, RRatio(1, m), RAdd(k, RRatio(i, m)), R(0)), a, s, m, k, i + 1)
CsDaySd(a, s, m) == RMul(s, RSqrt(RDiv(RSum([i \in 1..m |-> RPow(CsPull(a, RRatio(1, m)), 2 * (m - i))]), m)))
\* the shock of day k of a path of deviations
CsShock(d0, d1, a, s, m, k) == RDiv(RSub(d1, CsDay(d0, a, s, m, k, 0)), CsDaySd(a, s, m))

-----------------------------------------------------------------------------
\* antithetic draws over n simulations: neighbours mirror one another, an odd last one is on its own
Mirrored(row) == \A k \in 1..(Len(row) \div 2) : RClose(row[2*k-1], RNeg(row[2*k]), "0", "0")
\* the sum of N independent standard normal draws, and of their squares
PlausibleMean(x, N) == RLe(RAbs(x), RDiv(6, RSqrt(R(N))))
PlausibleVar(x, N) == RLe(RAbs(RSub(x, 1)), RAdd(RDiv("8.5", RSqrt(R(N))), RDiv(40, R(N))))
=============================================================================
