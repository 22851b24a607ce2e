---------------------------- MODULE FxSurfaceTrace ----------------------------
(* Recorded FX quotes, forward curves and surfaces.                                *)
EXTENDS FxSurface, Json, IOUtils
Sim == INSTANCE Paths
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, mkt, bad
vars == <<curve, smiles, c, l, mkt, bad>>
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
AsSet(s) == {s[i] : i \in DOMAIN s}
CalOf(r) == [mask |-> r.mask, hols |-> AsSet(r.hols)]

\* a frame of quotes: I.cols columns [k, d, txt], I.vals[row][column]; those which are no quotes have kind "other"
QCols == {i \in DOMAIN I.cols : I.cols[i].k \in QKinds \cup {"atm"}}
RowQuotes(r) == [q \in {Q(I.cols[i].k, I.cols[i].d) : i \in QCols} |-> I.vals[r][CHOOSE i \in QCols : I.cols[i].k = q.k /\ I.cols[i].d = q.d]]
Txt(cp, d) == LET i == CHOOSE j \in QCols : I.cols[j].d = d IN I.cols[i].txt
OrderName(o) == IF o.d = 50 THEN "atm_delta_neutral" ELSE Txt(o.cp, o.d) \o "_delta_" \o CallOrPut(o.cp)
Order == SmileOrder(RowQuotes(1))

Clean == IF ~O.ok THEN {"quotes are served"}
  ELSE If(\A i \in DOMAIN I.cols : I.cols[i].name \in Spellings(I.cols[i]), "spelling of the recorded columns")
  \cup If(O.cleaned = [i \in DOMAIN I.cols |-> Name(I.cols[i])], "canonical column names")
  \cup If(O.untouched, "the caller's quotes are left as they were")

Names == IF ~Resolvable2(RowQuotes(1)) THEN If(~O.ok, "strategies without partner or at the money volatility are refused")
  ELSE IF ~O.ok THEN {"quotes are served"}
  ELSE If(O.cleaned = [i \in DOMAIN I.cols |-> IF I.cols[i].k = "other" THEN I.cols[i].txt ELSE Name(I.cols[i])], "canonical column names")
  \cup If(O.names = [i \in 1..Len(Order) |-> OrderName(Order[i])], "quotes in the order of strikes")
  \cup If(Len(O.cp) = Len(Order) /\ \A i \in 1..Len(Order) : O.cp[i] = Order[i].cp /\ RClose(O.delta[i], SignedDelta(Order[i]), "1e-14", "0"), "call put flags and signed deltas")
  \cup If(O.names # [i \in 1..Len(Order) |-> OrderName(Order[i])] \/ \A r \in DOMAIN I.vals : LET w == SmileVols(RowQuotes(r), Order) IN
            Len(O.vols[r]) = Len(w) /\ \A i \in DOMAIN w : RClose(O.vols[r][i], w[i], "1e-12", "1e-15"), "call and put volatilities of the strategies")
  \cup If(O.untouched, "the caller's quotes are left as they were")

Interp == IF ~O.ok THEN {"call is served"}
  ELSE LET fc == AsSet(I.fc) IN
   If(Len(O.f) = Len(I.dates) /\ \A i \in DOMAIN I.dates :
        IF ~I.flat /\ ~FwdInside(fc, I.dates[i]) THEN RIsNaN(O.f[i]) ELSE RClose(O.f[i], ForwardOn(fc, I.dates[i]), "1e-12", "0"), "forward rate of its date")
   \cup If(O.untouched, "the caller's quotes are left as they were")

Conv == IF ~O.ok THEN {"call is served"}
  ELSE If(O.for = I.pair.for /\ O.dom = I.pair.dom /\ O.pair = I.pair.for \o I.pair.dom, "currencies of the pair")
  \cup If(O.warned = Unconventional(I.pair), "warning for a pair quoted the unusual way round")
  \cup If(Len(O.remarks) = Len(I.convs) /\ \A i \in DOMAIN I.convs : O.remarks[i] = Remark(I.pair, I.convs[i]), "remark on pillars off the market convention")

-----------------------------------------------------------------------------
\* surfaces
Req(r) == [r EXCEPT !.cal = CalOf(r.cal)]
Resolved == Resolve(CalOf(I.cal), [pair |-> I.pair.for \o I.pair.dom, cd |-> I.cdgiven, off |-> I.off, sd |-> I.sdgiven])
Market ==
  LET cal == CalOf(I.cal) z == Resolved
      qd(q) == QuoteDates(cal, z.cd, z.off, q)
      spot == CHOOSE i \in DOMAIN I.fwd : I.fwd[i].t.k = "sp" /\ I.fwd[i].fix = NoDate
  IN [cd |-> z.cd, lag |-> z.off, sd |-> z.sd, cal |-> cal, basis |-> I.basis, spot |-> I.fwd[spot].f,
      fc |-> {[d |-> qd(I.fwd[i]).fix, f |-> I.fwd[i].f] : i \in DOMAIN I.fwd},
      dom |-> Built(Req(I.domc)), for |-> Built(Req(I.forc)),
      pillars |-> {[d |-> qd(I.terms[r]).fix, del |-> qd(I.terms[r]).del, conv |-> I.terms[r].conv, vols |-> SmileVols(RowQuotes(r), Order)] : r \in DOMAIN I.terms}]
C9(a, b) == RClose(a, b, "1e-9", "1e-11")
\* one recorded day of the surface: x = [d, tau, F, rd, rf, conv, vols]
DayOk(m, x) == LET s == SmileOn(m, x.d) IN
  If(C9(x.tau, s.tau), "years to the expiry") \cup If(C9(x.F, s.F), "forward rate of the expiry") \cup If(C9(x.rd, s.rd) /\ C9(x.rf, s.rf), "zero rates of the expiry")
  \cup If(x.conv = s.conv, "delta convention of the expiry")
  \cup If(Len(x.vols) = Len(s.vols) /\ \A i \in DOMAIN s.vols : C9(x.vols[i], s.vols[i]), "volatility of every delta at the expiry")
StrikesOk(m, x, ks) == LET s == SmileOn(m, x) IN Len(ks) = Len(Order) /\ \A i \in DOMAIN Order : IsStrike(m, s, Order[i], s.vols[i], ks[i])
Surface(m) ==
  If(O.cd = m.cd /\ O.off = m.lag /\ O.sd = m.sd, "curve date, spot lag and spot date")
  \cup If(RClose(O.spot, m.spot, "0", "0"), "spot rate")
  \cup If(O.names = [i \in 1..Len(Order) |-> OrderName(Order[i])], "quotes in the order of strikes")
  \cup If(O.untouched, "the caller's quotes are left as they were")
  \cup If({O.pillars[i].d : i \in DOMAIN O.pillars} = ExpDays(m) /\ Len(O.pillars) = Cardinality(ExpDays(m)) /\ \A i \in DOMAIN O.pillars : O.pillars[i].del = PillarOn(m, O.pillars[i].d).del, "dates of the pillars")
  \cup If(O.first = MinOf(ExpDays(m)) /\ O.last = MaxOf(ExpDays(m)) /\ O.count = O.last - O.first + 1, "one smile for every day from the first to the last expiry")
  \cup (IF {O.pillars[i].d : i \in DOMAIN O.pillars} # ExpDays(m) THEN {} ELSE
        UNION {DayOk(m, O.pillars[i]) : i \in DOMAIN O.pillars} \cup UNION {DayOk(m, O.days[i]) : i \in DOMAIN O.days}
        \cup If(\A i \in DOMAIN O.pillars : StrikesOk(m, O.pillars[i].d, O.pillars[i].ks), "strikes of the pillars have the quoted deltas"))

\* one recorded query: rows [d, K, cp], answers vol and price; witness: strikes of the smile of each day
Ev == I.events[l]
Got == O.events[l]
AskedDays(e) == IF e.op = "sim" THEN {} ELSE {e.rows[i].d : i \in DOMAIN e.rows}
\* simulated paths: per step mean, variance and correlation with the step before of the logarithm, over Ev.sims simulations
AtmPlace == CHOOSE i \in 1..Len(Order) : Order[i].d = 50
SimFails ==
  LET m == mkt ds == AsSet(Ev.dels) g == SimDeliveries(m, ds) f == [i \in 1..Len(g) |-> FixingOf(m, g[i])] IN
  IF ~Simulable(m, ds) THEN If(~Got.ok, "rates before spot or beyond the quoted expiries are not simulated")
  ELSE IF ~Got.ok THEN {"rates are simulated"}
  ELSE IF Got.shape # <<Len(g), 1, Ev.sims>> \/ Got.del # g THEN {"one rate per delivery date and simulation"}
  ELSE If(Got.fix = f, "rates are fixed the spot lag before their delivery")
  \cup If(RClose(Got.lo, m.spot, "1e-12", "0") /\ RClose(Got.hi, m.spot, "1e-12", "0"), "paths start at the spot rate")
  \cup UNION {LET w == StepVar(m, AtmPlace, f[i], f[i+1]) u == StepMean(m, AtmPlace, f[i], f[i+1]) n == IF Ev.anti THEN Ev.sims \div 2 ELSE Ev.sims IN
       IF f[i] = f[i+1] THEN If(RClose(Got.mean[i], R(0), "0", "1e-12") /\ RClose(Got.var[i], R(0), "0", "1e-20"), "deliveries of one fixing have one rate")
       ELSE If(IF Ev.anti THEN RClose(Got.mean[i], u, "1e-7", "1e-10") ELSE RLe(RAbs(RSub(Got.mean[i], u)), RDiv(RMul(6, RSqrt(w)), RSqrt(R(n)))), "the mean of the simulated rates is the forward rate")
         \cup If(Ev.anti = RLt(Got.pairs[i], "1e-4"), "simulations mirror their neighbour exactly when asked to")
         \cup If(Sim!PlausibleVar(RDiv(Got.var[i], w), n), "the dispersion of the simulated rates is the volatility of the surface")
         \cup If(i = 1 \/ f[i-1] = f[i] \/ Sim!PlausibleMean(Got.cross[i], n), "steps are independent") : i \in 1..(Len(g) - 1)}
EventFails ==
  IF Ev.op = "sim" THEN SimFails
  ELSE IF \E z \in AskedDays(Ev) : ~Covered(mkt, z) THEN If(~Got.ok, "an expiry outside the quoted expiries is refused")
  ELSE IF ~Got.ok THEN {"query is served"}
  ELSE IF Len(Got.vol) # Len(Ev.rows) \/ (Ev.op = "price" /\ Len(Got.price) # Len(Ev.rows)) THEN {"one answer per row"}
  ELSE UNION {LET q == Ev.rows[i] w == Got.wit[i] s == SmileOn(mkt, q.d) IN
       IF ~StrikesOk(mkt, q.d, w) THEN {"strikes of the smile have the quoted deltas"}
       ELSE LET v == SmileAt(w, s.vols, q.K) IN
            If(RClose(Got.vol[i], v, "1e-6", "1e-8"), "volatility of the expiry and strike")
            \cup If(Len(Got.mkt) = Len(Ev.rows) /\ C9(Got.mkt[i][1], s.rd) /\ C9(Got.mkt[i][2], s.rf) /\ C9(Got.mkt[i][3], s.F), "zero rates and forward rate of the expiry")
            \cup (IF Ev.op = "vol" THEN {} ELSE
              LET x == OptionOn(mkt, s, q.cp, q.K, Got.vol[i]) IN If(RClose(Got.price[i], GKValue(x), "1e-8", RMul("1e-10", mkt.spot)), "price at the volatility of the surface")) : i \in DOMAIN Ev.rows}

-----------------------------------------------------------------------------
Static == CASE I.op = "names" -> Names [] I.op = "clean" -> Clean [] I.op = "interp" -> Interp [] I.op = "conv" -> Conv
Init == c \in 1..Len(Cases) /\ l = 0 /\ mkt = <<>> /\ bad = {} /\ curve = <<>> /\ smiles = {}
Make == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<c, curve, smiles>>
        /\ IF I.op # "surface" THEN mkt' = <<>> /\ bad' = Static
           ELSE mkt' = Market /\ bad' = (IF O.ok THEN Surface(mkt') ELSE {"the surface is built"})
NEv == IF I.op = "surface" /\ O.ok THEN Len(I.events) ELSE 0
Event == /\ l \in 1..NEv /\ l' = l + 1 /\ UNCHANGED <<c, curve, mkt>>
         /\ bad' = bad \cup EventFails
         /\ smiles' = smiles \cup {[d |-> z, s |-> SmileOn(mkt, z)] : z \in {y \in AskedDays(Ev) : Covered(mkt, y) /\ ~Cached(y)}}
Done == /\ l = NEv + 1 /\ l' = -1 /\ UNCHANGED <<c, curve, mkt, bad, smiles>>
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in bad : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Make \/ Event \/ Done]_vars
=============================================================================
