------------------------------ MODULE HestonTrace ------------------------------
(* Recorded Heston prices and calibrations.                                        *)
EXTENDS Heston, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
Row(i) == [S |-> I.S, tau |-> I.tau, r |-> I.r, q |-> I.q, cp |-> I.rows[i].cp, K |-> I.rows[i].K, v0 |-> I.v0, vv |-> I.vv, kappa |-> I.kappa, theta |-> I.theta, rho |-> I.rho, lam |-> I.lam]

\* the accuracy of each method
Near(h, x) ==
  CASE I.method \in {"heston_1993", "heston_lipton"} -> RClose(x, HestonValue(h), "1e-8", RMul("1e-8", h.S))
    [] I.method = "heston_carr_madan_gauss_kronrod_quadrature" -> RClose(x, HestonValue(h), "1e-8", RMul("2e-7", RMax(h.S, 1)))
    [] I.method = "heston_cosine" -> RClose(x, HestonValue(h), "0", RMul("2e-5", h.S))
    [] I.method = "heston_carr_madan_fft_w_simpsons" ->
         \* read linearly off a grid of log strikes 8 pi / 1024 apart
         LET g == RDiv(RMul(8, "3.141592653589793"), 1024) n == RFloor(RDiv(RLn(h.K), g)) k(j) == RExp(RMul(j, g))
             w == RSub(RDiv(RLn(h.K), g), n) v == HestonValue(h)
             line == RAdd(RMul(RSub(1, w), HestonValue([h EXCEPT !.K = k(n)])), RMul(w, HestonValue([h EXCEPT !.K = k(n + 1)])))
         IN RClose(x, v, "0", RAdd(RMul("1.5", RAbs(RSub(line, v))), RMul("4e-5", RMax(h.S, h.K))))
Price == IF ~O.ok THEN {"price is served"}
  ELSE IF Len(O.x) # Len(I.rows) THEN {"one price per option"}
  ELSE If(\A i \in DOMAIN I.rows : Near(Row(i), O.x[i]), "price of the model")

\* calibration to volatilities I.vols quoted at deltas; I.w: strikes of the quotes by the model of the quotes
Quote(i) == [S |-> I.S, tau |-> I.tau, rd |-> I.r, rf |-> I.q, cp |-> I.quotes[i].cp, K |-> O.ks[i], v |-> I.quotes[i].v, F |-> "none"]
Fitted(i) == [S |-> I.S, tau |-> I.tau, r |-> I.r, q |-> I.q, cp |-> I.quotes[i].cp, K |-> O.ks[i], v0 |-> O.v0, vv |-> O.vv, kappa |-> O.kappa, theta |-> O.theta, rho |-> O.rho, lam |-> "0"]
Vols == [i \in DOMAIN I.quotes |-> I.quotes[i].v]
StrikeOk(i) == IF I.quotes[i].d = "0.5" THEN TRUE ELSE RClose(QuotedDelta(I.conv, Quote(i)), I.quotes[i].d, "1e-7", "1e-8")
Grid == I.method = "heston_carr_madan_fft_w_simpsons"
Accurate == CASE Grid -> FALSE [] I.method = "heston_cosine" -> RLe("0.5", Feller(O))
             [] I.method = "heston_carr_madan_gauss_kronrod_quadrature" -> Moment(O, "1.75") /\ Moment(O, "-0.75") [] OTHER -> TRUE
Calib == IF ~O.ok THEN {"calibration is served"}
  ELSE If(Admissible(O, Vols), "parameters are admissible")
  \cup If(\A i \in DOMAIN I.quotes : StrikeOk(i), "strikes of the quotes have the quoted deltas")
  \cup If(Len(O.iv) = Len(Vols) /\ RClose(O.sse, SquaredErrors(Vols, O.iv), "1e-10", "1e-18"), "sum of squared errors")
  \cup If(~Accurate \/ \A i \in DOMAIN I.quotes : RLe(O.iv[i], 0) \/ RClose(HestonValue(Fitted(i)), GKOf(Fitted(i), RMul(Sq(O.iv[i]), I.tau)), "1e-4", RMul(IF I.method = "heston_cosine" THEN "3e-5" ELSE "2e-6", I.S)), "volatilities of the fitted model")
  \cup If(Grid \/ RLe(O.sse, I.worst), "fit to the smile")

Verdict == CASE I.op = "price" -> Price [] I.op = "calib" -> Calib
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Check == l = 0 /\ l' = 1 /\ bad' = Verdict /\ UNCHANGED c
Done == /\ l = 1 /\ l' = -1 /\ UNCHANGED <<c, bad>>
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in bad : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Check \/ Done]_vars
=============================================================================
