-------------------------------- MODULE SabrMC --------------------------------
(* A grid of SABR smiles; the strike moves up a ladder.                             *)
EXTENDS Sabr
CONSTANTS Betas, Rhos, Nus, MaxUp
VARIABLES m, k
vars == <<m, k>>
Init == k = 0 /\ \E b \in Betas, r \in Rhos, n \in Nus : m = [tau |-> "2.5", f |-> "0.045", alpha |-> RMul("0.2", RPow("0.045", RSub(1, b))), beta |-> b, rho |-> r, nu |-> n]
Next == k < MaxUp /\ k' = k + 1 /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
K == RMul(m.f, RExp(RMul("0.25", k - MaxUp \div 2)))
V == SabrVol(m, K)
Positive == RLt(0, V) /\ RIsNum(V)
\* the smile is one curve through the money and on both sides of it
Continuous == RClose(SabrVol(m, RMul(m.f, "1.000001")), AtmVol(m), "1e-5", "0") /\ RClose(SabrVol(m, RMul(K, "1.0000001")), V, "1e-6", "0")
\* money has no unit
Scales == LET c == RPow("100", RSub(1, m.beta)) IN RClose(SabrVol([m EXCEPT !.f = RMul(100, @), !.alpha = RMul(c, @)], RMul(100, K)), V, "1e-12", "0")
\* without correlation and elasticity forward and strike may be exchanged
Mirror == LET z == [m EXCEPT !.beta = "0", !.rho = "0", !.alpha = "0.009"] IN RClose(SabrVol(z, K), SabrVol([z EXCEPT !.f = K], m.f), "1e-12", "0")
\* a lognormal forward with a volatility that hardly moves has a flat smile
Flat == LET z == [m EXCEPT !.beta = "1", !.alpha = "0.2", !.nu = "1e-7"] IN RClose(SabrVol(z, K), "0.2", "1e-6", "0")
Through == \A v \in {"0.1", "0.3"} : ~Tame(m, v) \/ LET a == SolveAlpha(m, v) IN RLt(0, a) /\ RClose(AtmVol([m EXCEPT !.alpha = a]), v, "1e-10", "0")
\* both forms of x(z) agree where neither cancels
ASSUME \A r \in {"-0.7", "0", "0.4"}, z \in {"-0.5", "-0.01", "0.01", "0.3"} :
  LET s == RSqrt(RAdd(RSub(1, Prod3(2, r, z)), Sq(z))) IN RClose(ZOverX(z, r), RDiv(z, RLn(RDiv(RAdd(s, RSub(z, r)), RSub(1, r)))), "1e-10", "0")
=============================================================================
