------------------------------- MODULE HestonMC -------------------------------
(* A small grid of Heston markets; the strike moves up a ladder.                    *)
EXTENDS Heston
CONSTANTS Taus, Rhos, VVs, MaxUp
VARIABLES h, up
vars == <<h, up>>
Base == [S |-> "1.2", tau |-> "0.5", r |-> "0.022", q |-> "0.018", cp |-> 1, K |-> "1.05", v0 |-> "0.01", vv |-> "0.2", kappa |-> "1.5", theta |-> "0.015", rho |-> "0.05", lam |-> "0"]
Init == up = 0 /\ \E t \in Taus, y \in Rhos, e \in VVs, c \in {1, -1}, l \in {"0", "0.4"} : h = [Base EXCEPT !.tau = t, !.rho = y, !.vv = e, !.cp = c, !.lam = l]
Next == up < MaxUp /\ up' = up + 1 /\ h' = [h EXCEPT !.K = RMul(h.K, "1.07")]
Spec == Init /\ [][Next]_vars
V(k) == HestonValue([h EXCEPT !.K = k])
SD == RMul(h.S, DiscF(h.q, h.tau))
KD == RMul(h.K, DiscF(h.r, h.tau))
Tiny == "1e-9"
Bounds == LET v == V(h.K) IN RLe(RSub(Pos(RMul(h.cp, RSub(SD, KD))), Tiny), v) /\ RLe(v, RAdd(Tiny, IF h.cp = 1 THEN SD ELSE KD))
Parity == RClose(RSub(V(h.K), HestonValue([h EXCEPT !.cp = -h.cp])), RMul(h.cp, RSub(SD, KD)), "0", Tiny)
Convex == RLe(V(h.K), RAdd(Tiny, RMul(Half, RAdd(V(RMul(h.K, "0.99")), V(RMul(h.K, "1.01"))))))
Martingale == LET z == Risk(h) IN RClose(LnChf(z, <<"0", "-1">>)[1], "0", "0", "1e-12") /\ RClose(LnChf(z, <<"0", "0">>)[1], "0", "0", "1e-12")
Scales == RClose(HestonValue([h EXCEPT !.S = RMul(2, @), !.K = RMul(2, @)]), RMul(2, V(h.K)), "1e-10", "0")
\* without randomness of the variance the price is that of Garman-Kohlhagen
Certain == LET z == Risk([h EXCEPT !.vv = "0.0005"]) IN RClose(HestonValue(z), GKOf(z, MeanVar(z)), "0", "2e-5")
\* reference values of Fang and Oosterlee (2008)
FO(t) == [S |-> "100", tau |-> t, r |-> "0", q |-> "0", cp |-> 1, K |-> "100", v0 |-> "0.0175", vv |-> "0.5751", kappa |-> "1.5768", theta |-> "0.0398", rho |-> "-0.5711", lam |-> "0"]
ASSUME RClose(HestonValue(FO("1")), "5.785155450", "0", "2e-7")
ASSUME RClose(HestonValue(FO("10")), "22.318945791474590", "0", "2e-6")
=============================================================================
