----------------------------- MODULE OptionsTrace -----------------------------
(* Recorded pricing calls.  A case is one call over n rows; row i of the answer   *)
(* must be the value of row i alone.                                               *)
EXTENDS Options, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
I == Cases[c].inp
O == Cases[c].out
Row(i) == I.rows[i]
N == Len(I.rows)
\* recorded sequence s has one entry per row, close to W(row)
All(s, W(_), rt, at) == Len(s) = N /\ \A i \in 1..N : RClose(s[i], W(Row(i)), rt, at)
Wrong(key, W(_), rt, at, clause) == IF key \notin DOMAIN O.cols THEN {} ELSE IF All(O.cols[key], W, rt, at) THEN {} ELSE {clause}
Missing == {k \in {I.want[i] : i \in DOMAIN I.want} : k \notin DOMAIN O.cols}
Scale == I.scale         \* size of a price, for absolute tolerances
A(x) == RMul(x, Scale)

GK == UNION {
  Wrong("price", GKValue, "1e-9", A("1e-11"), "option value"),
  Wrong("intrinsic", GKIntrinsic, "1e-9", A("1e-11"), "intrinsic value"),
  Wrong("time", LAMBDA m : RSub(GKValue(m), GKIntrinsic(m)), "1e-7", A("1e-11"), "time value"),
  Wrong("a_spot_delta", GKSpotDelta, "1e-9", "1e-10", "spot delta"),
  Wrong("a_forward_delta", GKFwdDelta, "1e-9", "1e-10", "forward delta"),
  Wrong("a_vega", GKVega, "1e-8", A("1e-10"), "vega"),
  Wrong("a_gamma", GKGamma, "1e-8", "1e-10", "gamma"),
  Wrong("a_rho", GKRho, "1e-8", A("1e-10"), "rho"),
  Wrong("a_theta", GKTheta, "1e-8", A("1e-10"), "theta"),
  Wrong("n_spot_delta", NumSpotDelta, "1e-6", "1e-8", "numerical spot delta"),
  Wrong("n_forward_delta", NumFwdDelta, "1e-6", "1e-8", "numerical forward delta"),
  Wrong("n_vega", NumVega, "1e-6", A("1e-9"), "numerical vega"),
  Wrong("n_gamma", NumGamma, "1e-6", "1e-8", "numerical gamma"),
  Wrong("n_rho", NumRho, "1e-6", A("1e-9"), "numerical rho"),
  Wrong("n_theta", NumTheta, "1e-6", A("1e-9"), "numerical theta")}
B76 == UNION {
  Wrong("price", B76Value, "1e-9", A("1e-11"), "option value"),
  Wrong("intrinsic", FIntrinsic, "1e-9", A("1e-11"), "intrinsic value"),
  Wrong("time", LAMBDA b : RSub(B76Value(b), FIntrinsic(b)), "1e-7", A("1e-11"), "time value"),
  Wrong("a_delta", B76Delta, "1e-9", "1e-10", "delta"),
  Wrong("a_vega", B76Vega, "1e-8", A("1e-10"), "vega"),
  Wrong("n_delta", B76NumDelta, "1e-6", "1e-8", "numerical delta"),
  Wrong("n_vega", B76NumVega, "1e-6", A("1e-9"), "numerical vega")}
Bach == UNION {
  Wrong("price", BachValue, "1e-9", A("1e-11"), "option value"),
  Wrong("intrinsic", FIntrinsic, "1e-9", A("1e-11"), "intrinsic value"),
  Wrong("time", LAMBDA b : RSub(BachValue(b), FIntrinsic(b)), "1e-7", A("1e-11"), "time value"),
  Wrong("a_delta", BachDelta, "1e-9", "1e-10", "delta"),
  Wrong("a_vega", BachVega, "1e-8", A("1e-10"), "vega"),
  Wrong("a_theta", BachTheta, "1e-8", A("1e-10"), "theta")}

\* strikes solved from quoted deltas; row: market with K = "0", plus the delta d
AtMoney(r) == RClose(RAbs(r.d), Half, "0", "0")
Mkt(r, k) == [S |-> r.S, tau |-> r.tau, rd |-> r.rd, rf |-> r.rf, cp |-> r.cp, K |-> k, v |-> r.v, F |-> r.F]
StrikeOk(r, k) ==
  /\ RIsNum(k) /\ RLt(0, k)
  /\ IF AtMoney(r) /\ (I.atm = "forward" \/ I.conv \notin {"regular_spot", "regular_forward"}) THEN RClose(k, AtmStrike(I.conv, Mkt(r, k)), "1e-10", "0")
     ELSE \* solved to 1e-11 in the strike
          /\ LET q == QuotedDelta(I.conv, Mkt(r, k)) IN RClose(q, r.d, "1e-8", RAdd("1e-9", RAbs(RSub(QuotedDelta(I.conv, Mkt(r, RAdd(k, "1e-11"))), q))))
          \* of the two strikes with one premium adjusted call delta, the one where the delta falls as the strike rises
          /\ r.cp = 1 => RLt(QuotedDelta(I.conv, Mkt(r, RMul(k, "1.0001"))), QuotedDelta(I.conv, Mkt(r, k)))
Strike == IF Len(O.cols.K) = N /\ \A i \in 1..N : StrikeOk(Row(i), O.cols.K[i]) THEN {} ELSE {"the strike has the quoted delta"}

\* volatility solved from a price: accurate to its tolerance in volatility (FX) or in price (rates)
Attainable(m, x) == /\ RLt(GKIntrinsic(m), x)
                    /\ RLt(x, IF m.cp = 1 THEN RMul(m.S, DiscF(m.rf, m.tau)) ELSE RMul(m.K, DiscF(Rd(m), m.tau)))
GKVol == LET r == Row(1) v == O.cols.vol[1] up == [r EXCEPT !.v = RAdd(v, "0.00015")] dn == [r EXCEPT !.v = RMax("0.000001", RSub(v, "0.00015"))] IN
  IF ~Attainable(r, I.X) THEN (IF v = "inf" THEN {} ELSE {"a price no volatility gives has no volatility"})
  ELSE IF RIsNum(v) /\ RLe(GKValue(dn), RAdd(I.X, A("1e-10"))) /\ RLe(I.X, RAdd(GKValue(up), A("1e-10"))) THEN {} ELSE {"the volatility reprices the option"}
SumOver(V(_), v) == RSum([i \in 1..N |-> V([Row(i) EXCEPT !.v = v])])
Reprices(V(_)) == LET v == O.cols.vol[1] IN
  IF RIsNum(v) /\ RClose(SumOver(V, v), I.X, "0", RMul("0.0000101", I.X)) THEN {} ELSE {"the volatility reprices the option"}
\* conversion of one volatility into another: the out-of-the-money option keeps its value
Otm(r) == [r EXCEPT !.cp = IF RLe(r.F, r.K) THEN 1 ELSE -1]
Keeps(V(_), from, W(_), to) == LET v == O.cols.vol[1] x == V(Otm(from)) IN
  IF RIsNum(v) /\ RClose(W(Otm([to EXCEPT !.v = v])), x, "0", RMul("0.000011", x)) THEN {} ELSE {"the converted volatility keeps the option value"}
Conv == CASE I.op = "b2n" -> Keeps(B76Value, Row(1), BachValue, Row(1))
          [] I.op = "n2b" -> Keeps(BachValue, Row(1), B76Value, Row(1))
          [] I.op = "shift" -> Keeps(B76Value, Row(1), B76Value, [Row(1) EXCEPT !.sh = I.to])
          [] I.op = "approx" -> IF RClose(O.cols.vol[1], I.X, "0.01", "0") THEN {} ELSE {"the analytical conversion is close to the exact one"}

\* volatilities in time; row: [t1, v1, t2, v2, t]
FwdVols ==
  IF \E i \in 1..N : RLt(Row(i).t2, Row(i).t1) \/ (RLt(Row(i).t1, Row(i).t2) /\ RLt(FwdVar(Row(i).t1, Row(i).v1, Row(i).t2, Row(i).v2), "-1e-12"))
  THEN (IF O.ok THEN {"volatilities with negative forward variance are refused"} ELSE {})
  ELSE IF ~O.ok THEN {"call is served"}
  ELSE IF Len(O.cols.vol) = N /\ \A i \in 1..N : IF RClose(Row(i).t1, Row(i).t2, "0", "0") THEN RIsNaN(O.cols.vol[i])
            ELSE RClose(RMul(Sq(O.cols.vol[i]), RSub(Row(i).t2, Row(i).t1)), RSub(RMul(Sq(Row(i).v2), Row(i).t2), RMul(Sq(Row(i).v1), Row(i).t1)), "1e-9", "1e-12")
       THEN {} ELSE {"variances add up over adjacent periods"}
Flat == IF Len(O.cols.vol) = N /\ \A i \in 1..N : RClose(O.cols.vol[i], FlatForward(Row(i).t1, Row(i).v1, Row(i).t2, Row(i).v2, Row(i).t), "1e-9", "1e-12")
        THEN {} ELSE {"volatility between two times has the flat forward variance"}

Fails ==
  IF I.op = "fwdvol" THEN FwdVols
  ELSE IF I.op = "unattainable" THEN (IF O.ok THEN {"a price no volatility gives is refused"} ELSE {})
  ELSE IF ~O.ok THEN {"call is served"}
  ELSE IF Missing # {} THEN {"every requested result is returned"}
  ELSE CASE I.op = "gk" -> GK [] I.op = "b76" -> B76 [] I.op = "bach" -> Bach
         [] I.op = "strike" -> Strike [] I.op = "gkvol" -> GKVol
         [] I.op = "b76vol" -> Reprices(B76Value) [] I.op = "bachvol" -> Reprices(BachValue)
         [] I.op = "flat" -> Flat
         [] OTHER -> Conv
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
