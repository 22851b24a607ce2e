------------------------------ MODULE HullWhite ------------------------------
(* The Hull-White model of a curve: dr = (theta(t) - a r) dt + v dW, fitted to     *)
(* the curve by theta.  Bonds, bond options, caplets, floorlets, swaptions, paths. *)
(* h = [a |-> mean reversion, v |-> volatility]; times in years from the curve day *)
EXTENDS Curve, Options

Small(h) == RLt(h.a, "1e-8")
B(h, t1, t2) == LET d == RSub(t2, t1) IN IF Small(h) THEN d ELSE RDiv(RSub(1, RExp(RNeg(RMul(h.a, d)))), h.a)
\* variance of the short rate t years from now
Var(h, t) == IF Small(h) THEN RMul(Sq(h.v), t) ELSE RMul(RDiv(Sq(h.v), RMul(2, h.a)), RSub(1, RExp(RMul(-2, RMul(h.a, t)))))
Short0(cv) == InstFwdAt(cv, 0)
P(cv, t) == RExp(LnAt(cv, t))

\* theta, the slope of the forward rate taken over a step of dt either side
ThetaStep(cv, h, dt, t) == RSum(<<RDiv(RSub(InstFwdAt(cv, RAdd(t, dt)), InstFwdAt(cv, RSub(t, dt))), RMul(2, dt)), RMul(h.a, InstFwdAt(cv, t)), Var(h, t)>>)
\* and in the limit
SplineDD(xs, ms, t) == LET i == Seg(xs, t) IN RAdd(ms[i], RMul(RDiv(RSub(ms[i + 1], ms[i]), H(xs, i)), RSub(t, xs[i])))
FwdSlope(cv, t) == IF cv.interp = SplLn THEN RNeg(SplineDD(cv.xs, cv.ms, t)) ELSE RAdd(RMul(2, SplineD(cv.xs, cv.ys, cv.ms, t)), RMul(t, SplineDD(cv.xs, cv.ms, t)))
Theta(cv, h, t) == RSum(<<FwdSlope(cv, t), RMul(h.a, InstFwdAt(cv, t)), Var(h, t)>>)

\* price at t1 of the bond paying one at t2, the short rate of t1 being x above the forward rate of today
BondAt(cv, h, t1, t2, x) == LET b == B(h, t1, t2) IN
  RExp(RSum(<<LnAt(cv, t2), RNeg(LnAt(cv, t1)), RMul("-0.5", RMul(Var(h, t1), Sq(b))), RNeg(RMul(b, x))>>))
BondPrice(cv, h, t1, t2, r) == BondAt(cv, h, t1, t2, RSub(r, InstFwdAt(cv, t1)))

\* option of strike k expiring at t on the bond paying one at s
BondSd(h, t, s) == RMul(RSqrt(Var(h, t)), B(h, t, s))
BondOption(cv, h, cp, t, s, k) ==
  LET f == P(cv, s) x == RMul(k, P(cv, t)) sd == BondSd(h, t, s) IN
  IF RLt(s, t) THEN R(0) ELSE IF RLe(sd, 0) THEN Pos(RMul(cp, RSub(f, x))) ELSE LnValue(cp, f, x, sd)
\* option on the simple rate from t to s, paid at s: bond options
Optionlet(cv, h, cp, t, s, k) == LET g == RAdd(1, RMul(k, RSub(s, t))) IN RMul(g, BondOption(cv, h, -cp, t, s, RDiv(1, g)))

-----------------------------------------------------------------------------
\* swaption: the right at t to pay (cp -1) or receive (cp 1) the fixed flows <<[s, c]>> against one
FlowsAt(cv, h, t, fl, x) == RSum([i \in DOMAIN fl |-> RMul(fl[i].c, BondAt(cv, h, t, fl[i].s, x))])
RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(cv, h, t, fl, lo, hi, n) == LET m == RMul(Half, RAdd(lo, hi)) IN
  IF n = 0 THEN m ELSE IF RLt(1, FlowsAt(cv, h, t, fl, m)) THEN Bisect(cv, h, t, fl, m, hi, n - 1) ELSE Bisect(cv, h, t, fl, lo, m, n - 1)
Critical(cv, h, t, fl) == Bisect(cv, h, t, fl, R(-2), R(2), 56)
Swaption(cv, h, cp, t, fl) == LET x == Critical(cv, h, t, fl) IN
  RSum([i \in DOMAIN fl |-> RMul(fl[i].c, BondOption(cv, h, cp, t, fl[i].s, BondAt(cv, h, t, fl[i].s, x)))])
\* the flows of coupons at times ss with fractions ys of a year, rate q, and one at n
Flows(ss, ys, q, n) == [i \in 1..(Len(ss) + 1) |-> IF i <= Len(ss) THEN [s |-> ss[i], c |-> RMul(q, ys[i])] ELSE [s |-> n, c |-> R(1)]]
\* worth of the swap itself, today
SwapValue(cv, cp, t, fl) == RMul(cp, RSub(RSum([i \in DOMAIN fl |-> RMul(fl[i].c, P(cv, fl[i].s))]), P(cv, t)))

-----------------------------------------------------------------------------
\* one step of a path, shock z: thetas q0 and q1 at its start and end
EulerShort(h, r, q0, dt, z) == RSum(<<r, RMul(RSub(q0, RMul(h.a, r)), dt), Prod3(h.v, RSqrt(dt), z)>>)
\* fourth order in the drift, theta being that of the start
Rk4Short(h, r, q0, dt, z) == LET x == RMul(h.a, dt) IN
  RSum(<<r, Prod3(RSub(q0, RMul(h.a, r)), dt, RSum(<<1, RMul("-0.5", x), RDiv(Sq(x), 6), RNeg(RDiv(Prod3(x, x, x), 24))>>)), Prod3(h.v, RSqrt(dt), z)>>)
\* exact law, theta being linear over the step
RampWeight(h, dt) == LET x == RMul(h.a, dt) IN
  IF RLt(x, "1e-3") THEN RMul(Sq(dt), RSum(<<Half, RNeg(RDiv(x, 3)), RDiv(Sq(x), 8)>>)) ELSE RDiv(RSub(1, RMul(RExp(RNeg(x)), RAdd(1, x))), Sq(h.a))
ThetaPull(h, q0, q1, dt) == RAdd(RMul(q1, B(h, 0, dt)), RMul(RDiv(RSub(q0, q1), dt), RampWeight(h, dt)))
ExactShort(h, r, q0, q1, dt, z) == RSum(<<RMul(r, RExp(RNeg(RMul(h.a, dt)))), ThetaPull(h, q0, q1, dt), RMul(RSqrt(Var(h, dt)), z)>>)
ShortNext(meth, h, r, q0, q1, dt, z) == CASE meth = "euler" -> EulerShort(h, r, q0, dt, z) [] meth = "rk4" -> Rk4Short(h, r, q0, dt, z) [] meth = "exact" -> ExactShort(h, r, q0, q1, dt, z)
\* rates accumulate along a path by the trapezium rule
Accrued(acc, r, s, dt) == RAdd(acc, RMul(RMul(Half, dt), RAdd(r, s)))
\* expected short rate at t
MeanShort(cv, h, t) == RAdd(InstFwdAt(cv, t), RMul(Half, RMul(Sq(h.v), Sq(B(h, 0, t)))))
=============================================================================
