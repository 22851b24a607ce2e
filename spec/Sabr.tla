--------------------------------- MODULE Sabr ---------------------------------
(* Lognormal volatilities of the SABR model by the expansion of Hagan et al. (2002) *)
(* for the shifted forward f = F + shift and strike k = K + shift.                   *)
EXTENDS Options

\* m: [tau, f, alpha, beta, rho, nu] with f the shifted forward
Back(m, k) == RPow(RMul(m.f, k), RMul(Half, RSub(1, m.beta)))          \* (f k)^((1 - beta) / 2)
ZOf(m, k) == Prod3(RDiv(m.nu, m.alpha), Back(m, k), RLn(RDiv(m.f, k)))
\* z / x(z), with x by whichever of its two forms does not cancel
ZOverX(z, rho) ==
  LET s == RSqrt(RAdd(RSub(1, Prod3(2, rho, z)), Sq(z))) IN
  IF RLt(RAbs(z), "1e-4") THEN RAdd(RSub(1, Prod3(Half, rho, z)), RMul(RDiv(RSub(2, RMul(3, Sq(rho))), 12), Sq(z)))
  ELSE IF RLt(z, rho) THEN RDiv(z, RLn(RDiv(RAdd(1, rho), RAdd(RSub(s, z), rho))))
  ELSE RDiv(z, RLn(RDiv(RAdd(s, RSub(z, rho)), RSub(1, rho))))
\* growth of the volatility over the life of the option
Drift(m, k) ==
  LET b == RSub(1, m.beta) w == Back(m, k)
      cev == RMul(RDiv(Sq(b), 24), RDiv(Sq(m.alpha), Sq(w)))
      mix == RDiv(Prod3(RDiv(RMul(m.rho, m.beta), 4), m.nu, m.alpha), w)
      vol == RMul(RDiv(RSub(2, RMul(3, Sq(m.rho))), 24), Sq(m.nu))
  IN RAdd(1, RMul(m.tau, RAdd(cev, RAdd(mix, vol))))
SabrVol(m, k) ==
  LET l2 == Sq(RLn(RDiv(m.f, k))) b2 == Sq(RSub(1, m.beta))
      wide == RAdd(1, RAdd(RDiv(RMul(b2, l2), 24), RDiv(RMul(Sq(b2), Sq(l2)), 1920)))
  IN RMul(RDiv(RMul(m.alpha, ZOverX(ZOf(m, k), m.rho)), RMul(Back(m, k), wide)), Drift(m, k))
AtmVol(m) == SabrVol(m, m.f)

\* the level alpha at which the smile m passes through volatility v at the money
RECURSIVE Improve(_, _, _)
Improve(m, v, n) ==
  IF n = 0 THEN m.alpha
  ELSE LET h == RMul("1e-6", m.alpha) e == RSub(AtmVol(m), v)
           slope == RDiv(RSub(AtmVol([m EXCEPT !.alpha = RAdd(@, h)]), AtmVol(m)), h)
       IN Improve([m EXCEPT !.alpha = RSub(@, RDiv(e, slope))], v, n - 1)
SolveAlpha(m, v) == Improve([m EXCEPT !.alpha = RMul(v, RPow(m.f, RSub(1, m.beta)))], v, 12)
\* below one at every level, where the expansion has left its ground
Tame(m, v) == LET a == RMul(v, RPow(m.f, RSub(1, m.beta))) d(x) == Drift([m EXCEPT !.alpha = RMul(x, a)], m.f) IN
  \A x \in {"0.01", "0.5", "1", "1.5", "2"} : RLe("0.6", d(x))

\* a smile through points p = [k, v], fitted by m
SmileErrors(m, ps) == RSum([i \in DOMAIN ps |-> Sq(RSub(ps[i].v, SabrVol(m, ps[i].k)))])
=============================================================================
