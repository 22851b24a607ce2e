-------------------------- MODULE HestonSurfaceTrace --------------------------
(* FX surfaces whose daily smiles are fitted Heston models.                        *)
EXTENDS FxSurfaceTrace, Heston

\* the fitted model w of a day as a market for strike k
FitOn(s, w, cp, k) == [S |-> mkt.spot, tau |-> s.tau, r |-> RAdd(RDiv(RLn(RDiv(s.F, mkt.spot)), s.tau), s.rf), q |-> s.rf, cp |-> cp, K |-> k,
                       v0 |-> w.v0, vv |-> w.vv, kappa |-> w.kappa, theta |-> w.theta, rho |-> w.rho, lam |-> w.lam]
Grid == I.smile = "heston_carr_madan_fft_w_simpsons"
Accurate(w) == CASE Grid -> FALSE [] I.smile = "heston_cosine" -> RLe("0.3", Feller(w))
                 [] I.smile = "heston_carr_madan_gauss_kronrod_quadrature" -> Moment(w, "1.75") /\ Moment(w, "-0.75") [] OTHER -> TRUE
HRow(i) == LET q == Ev.rows[i] w == Got.fit[i] s == SmileOn(mkt, q.d) x == FitOn(s, w, q.cp, q.K) v == Got.vol[i] IN
  If(Admissible(w, s.vols), "parameters of the smile of the expiry")
  \cup If(Len(w.iv) = Len(s.vols) /\ RClose(w.sse, SquaredErrors(s.vols, w.iv), "1e-10", "1e-18") /\ RLt(w.sse, "0.001"), "the smile is fitted to the volatilities of its expiry")
  \cup (IF ~StrikesOk(mkt, q.d, Got.wit[i]) THEN {"strikes of the smile have the quoted deltas"}
        ELSE If(~Accurate(w) \/ \A j \in DOMAIN s.vols : RLe(w.iv[j], 0) \/ LET y == FitOn(s, w, Order[j].cp, Got.wit[i][j]) IN
                  RClose(HestonValue(y), GKOf(y, RMul(Sq(w.iv[j]), s.tau)), "1e-4", RMul("3e-6", mkt.spot)), "volatilities of the fitted model at the quotes"))
  \cup If(~Accurate(w) \/ RClose(HestonValue(x), GKOf(x, RMul(Sq(v), s.tau)), "1e-4", RMul("3e-6", mkt.spot)), "volatility of the fitted model")
  \cup If(Len(Got.mkt) = Len(Ev.rows) /\ C9(Got.mkt[i][1], s.rd) /\ C9(Got.mkt[i][2], s.rf) /\ C9(Got.mkt[i][3], s.F), "zero rates and forward rate of the expiry")
  \cup (IF Ev.op = "vol" THEN {} ELSE
     LET o == OptionOn(mkt, s, q.cp, q.K, v) IN If(RClose(Got.price[i], GKValue(o), "1e-8", RMul("1e-10", mkt.spot)), "price at the volatility of the surface"))
HEventFails ==
  IF \E z \in AskedDays(Ev) : ~Covered(mkt, z) THEN If(~Got.ok, "an expiry outside the quoted expiries is refused")
  ELSE IF ~Got.ok THEN If(Got.err = "ValueError", "query is served")    \* a fit may be refused as poor
  ELSE IF Len(Got.vol) # Len(Ev.rows) \/ (Ev.op = "price" /\ Len(Got.price) # Len(Ev.rows)) THEN {"one answer per row"}
  ELSE UNION {HRow(i) : i \in DOMAIN Ev.rows}
HEvent == /\ l \in 1..NEv /\ l' = l + 1 /\ UNCHANGED <<c, curve, mkt, smiles>>
          /\ bad' = bad \cup HEventFails
HTraceSpec == Init /\ [][Make \/ HEvent \/ Done]_vars
=============================================================================
