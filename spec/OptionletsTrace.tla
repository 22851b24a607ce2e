--------------------------- MODULE OptionletsTrace ---------------------------
(* Recorded optionlet term structures: the quotes as strips, the stripped smiles,  *)
(* and what is read and priced off them.                                           *)
EXTENDS Optionlets, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, phase, lattice
vars == <<curve, c, phase, lattice>>
AsSet(s) == {s[i] : i \in DOMAIN s}
I == Cases[c].inp
O == Cases[c].out
Req == LET r == Cases[c].req IN [r EXCEPT !.cal = [mask |-> r.cal.mask, hols |-> AsSet(r.cal.hols)]]
M == [I.m EXCEPT !.cal = [mask |-> @.mask, hols |-> AsSet(@.hols)]]
N == Len(M.quotes)
If(ok, clause) == IF ok THEN {} ELSE {clause}
Near(a, b) == RClose(a, b, "1e-8", "1e-11")
Nears(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])

-----------------------------------------------------------------------------
\* the optionlets as recorded: the lattice of the specification with the recorded smiles
Os == O.opts
Cap(p) == CapOf(M, curve, lattice, p)
SameOpt(o, x) == /\ o.s = x.s /\ o.e = x.e /\ o.pay = x.pay
                 /\ Near(o.yf, x.yf) /\ Near(o.df, x.df) /\ Near(o.ann, x.ann) /\ Near(o.tau, x.tau) /\ Near(o.F, x.F)
StripOk(p) == LET k == O.caps[p] x == Cap(p) IN
     If(k.settle = x.settle /\ k.eff = x.eff /\ k.term = x.term /\ k.fix = x.fix, "dates of the quote")
  \cup If(Near(k.years, x.years) /\ Near(k.fixyears, x.fixyears), "years of the quote")
  \cup If(Nears(k.vols, x.vols), "volatilities stay with their quote")
  \cup If(Near(k.F, x.F), "forward of the quote")
  \cup If(Nears(k.ks, x.ks), "strikes of the quote")
  \cup If(\A j \in DOMAIN x.cps : RClose(k.cps[j], x.cps[j], 0, 0), "cap above and floor below the forward")
  \cup If(Nears(k.px, x.px), "price of the quote")
  \cup If(\A j \in DOMAIN x.px : RClose(StripN(M, lattice, Upto(M, lattice, p), x.cps[j], x.ks[j], k.vn[j]), x.px[j], "2e-5", 0), "the normal volatility gives the price of the quote")
Quotes ==
  IF ~O.ok THEN If(I.giveup /\ O.err = "ValueError", "quotes are stripped")
  ELSE If(O.untouched, "the quotes of the caller are left as they were")
  \cup (IF Len(Os) # Len(lattice) \/ Len(O.caps) # N THEN {"one row per optionlet and quote"}
        ELSE If(\A i \in DOMAIN Os : SameOpt(Os[i], lattice[i]), "optionlet of its period")
             \cup UNION {StripOk(p) : p \in 1..N})

BetaOf(p) == Sorted(M)[p].beta
StretchOk(p) ==
  LET S == Stretch(M, lattice, p) cap == Cap(p) b == PillarOf(M, lattice, p) a == IF p = 1 THEN b ELSE PillarOf(M, lattice, p - 1)
      vn == O.caps[p].vn[1] v == Os[b].v
      Lin(Y(_)) == IF p = 1 THEN FlatFirst(M, Os, S, Y) ELSE Straight(Os, a, b, S, Y, "1e-9")
      err == FitErr(M, Os, p, cap)
      calm == IF p = 1 THEN "0.0064" ELSE "0.04"
  IN If(\A i \in S : Os[i].nb = p - 1, "optionlet belongs to the first quote that reaches it")
  \cup If(IF p = 1 THEN \A i \in S : RClose(Os[i].v, vn, "1e-9", 0) ELSE Lin(LAMBDA i : Os[i].v), "volatilities at the money run between the pillars")
  \cup If(p = 1 \/ RClose(StretchN(M, Os, p, cap, TLCEval(NormalOf(M, Os[a], cap.ks[1])), v), Left(M, Os, p, cap, 1), "5e-5", RMul("2e-6", cap.px[1])), "the pillar volatility gives the rest of the price")
  \cup If(\A i \in S : RClose(B76Value(Opt(M, Os[i], 1, Os[i].F, Os[i].vs, M.shift)), BachValue(Opt(M, Os[i], 1, Os[i].F, Os[i].v, 0)), "2e-5", 0), "log-normal equivalent at the money")
  \cup If(\A i \in S : RClose(AtmVol(SmileAt(M, Os[i])), Os[i].vs, "1e-8", 0), "smiles pass through the volatility at the money")
  \cup If(\A i \in S : RLe(0, Os[i].beta) /\ RLe(Os[i].beta, 1) /\ RLt(RAbs(Os[i].rho), 1) /\ RLt(0, Os[i].nu) /\ RLt(0, Os[i].alpha), "parameters are admissible")
  \cup If(BetaOf(p) = "none" \/ RClose(Os[b].beta, BetaOf(p), 0, 0), "beta as asked for")
  \cup If(Lin(LAMBDA i : Os[i].beta) /\ Lin(LAMBDA i : Os[i].rho) /\ Lin(LAMBDA i : Os[i].nu), "smile parameters run between the pillars")
  \cup If(RLe(err, RAdd("1e-9", FitErr(M, WithSmile(M, Os, p, IF BetaOf(p) = "none" THEN "0" ELSE BetaOf(p), "0", "0.1"), p, cap))), "the fit is no worse than its start")
  \cup If(RLe(err, calm), "smiles that exist are found again")
Surface ==
  IF ~O.ok THEN If(I.giveup /\ O.err = "ValueError", "quotes are stripped")
  ELSE IF Len(Os) # Len(lattice) \/ Len(O.caps) # N THEN {"one row per optionlet and quote"}
  ELSE UNION {StretchOk(p) : p \in 1..N}
       \cup If(O.before = <<>> \/ \A i \in DOMAIN O.before : LET x == O.before[i] y == Os[i] IN
                 /\ x.s = y.s /\ Near(x.v, y.v) /\ Near(x.vs, y.vs) /\ Near(x.alpha, y.alpha) /\ Near(x.beta, y.beta) /\ Near(x.rho, y.rho) /\ Near(x.nu, y.nu),
               "a longer quote leaves the smiles before it as they were")

-----------------------------------------------------------------------------
\* queries q: rows [s, e, pay], answers [tau, F, beta, rho, nu, v, vs, alpha (+ K, cp, vol, yf, df, ann, price, ...)]
Unit(x) == [F |-> x.F, tau |-> x.tau, ann |-> "1"]
RowRead(x, r) ==
     If(x.s = r.s /\ x.e = r.e /\ x.pay = r.pay, "one answer per period, in order")
  \cup If(Near(x.tau, Yf(curve.basis, curve.cd, r.s, FALSE)), "time to the fixing")
  \cup If(Near(x.F, FwdOn(curve, "simple", r.s, r.e, Yf(curve.basis, r.s, r.e, FALSE))), "forward rate of the period")
  \cup If(/\ Near(x.beta, Read(Os, r.s, LAMBDA i : Os[i].beta)) /\ Near(x.rho, Read(Os, r.s, LAMBDA i : Os[i].rho))
          /\ Near(x.nu, Read(Os, r.s, LAMBDA i : Os[i].nu)) /\ Near(x.v, Read(Os, r.s, LAMBDA i : Os[i].v)), "the surface is linear between its optionlets")
  \cup If(RClose(B76Value(Opt(M, Unit(x), 1, x.F, x.vs, M.shift)), BachValue(Opt(M, Unit(x), 1, x.F, x.v, 0)), "2e-5", 0), "log-normal equivalent at the money")
  \cup If(RClose(AtmVol(SmileAt(M, x)), x.vs, "1e-8", 0), "smiles pass through the volatility at the money")
KOf(q, i) == q.K[IF Len(q.K) = 1 THEN 1 ELSE i]
CpOf(q, i) == q.cp[IF Len(q.cp) = 1 THEN 1 ELSE i]
VolOf(q, x, i) == IF q.by = "smile" THEN LET sm == SmileAt(M, x) IN SabrVol(sm, RAdd(KOf(q, i), M.shift)) ELSE q.vol[IF Len(q.vol) = 1 THEN 1 ELSE i]
Atm1(q, x, i) == q.by = "smile" /\ RLt(RAbs(RLn(RDiv(RAdd(x.F, M.shift), RAdd(KOf(q, i), M.shift)))), "1e-6")
RowPrice(q, x, r, i) ==
  LET yf == Yf(q.basis, r.s, r.e, FALSE) df == DFOn(curve, r.pay) ann == RMul(yf, df) cp == CpOf(q, i) k == KOf(q, i)
      v == VolOf(q, x, i) o == [F |-> x.F, tau |-> x.tau, cp |-> cp, K |-> k, v |-> v, sh |-> IF q.by = "n" THEN "0" ELSE M.shift, ann |-> ann]
      val == IF q.by = "n" THEN BachValue(o) ELSE B76Value(o)
      Close(a, b) == RClose(a, b, IF Atm1(q, x, i) THEN "1e-4" ELSE "1e-7", "1e-11")
  IN If(RClose(x.K, k, 0, 0) /\ RClose(x.cp, cp, 0, 0), "strike and direction of each period")
  \cup If(Near(x.yf, yf) /\ Near(x.df, df) /\ Near(x.ann, ann), "discounted to the payment date")
  \cup If(RClose(x.vol, v, IF Atm1(q, x, i) THEN "1e-4" ELSE "1e-7", 0), "volatility of each period at its strike")
  \cup If(Close(x.price, val), "price of each period")
  \cup If(Close(x.fwdprice, RDiv(val, ann)), "forward price")
  \cup If(Close(x.intrinsic, FIntrinsic(o)) /\ Close(x.time, RSub(val, FIntrinsic(o))), "intrinsic and time value")
  \cup If(Close(x.delta, IF q.by = "n" THEN BachDelta(o) ELSE B76Delta(o)), "delta")
  \cup If(Close(x.vega, IF q.by = "n" THEN BachVega(o) ELSE B76Vega(o)), "vega")
FlatOk(q, a) ==
  LET o(i, v, sh) == [F |-> a.rows[i].F, tau |-> a.rows[i].tau, cp |-> CpOf(q, i), K |-> KOf(q, i), v |-> v, sh |-> sh, ann |-> a.rows[i].ann]
      total == RSum([i \in DOMAIN a.rows |-> a.rows[i].price])
  IN If(RClose(RSum([i \in DOMAIN a.rows |-> B76Value(o(i, a.flat[1], M.shift))]), total, "2e-5", 0), "flat log-normal volatility gives the price")
  \cup If(RClose(RSum([i \in DOMAIN a.rows |-> BachValue(o(i, a.flat[2], 0))]), total, "2e-5", 0), "flat normal volatility gives the price")
AnswerOk(q, a) ==
  IF q.bad THEN If(~a.ok /\ a.err = "AssertionError", "inconsistent strikes or directions are refused")
  ELSE IF ~a.ok THEN {"query is served"}
  ELSE IF Len(a.rows) # Len(q.rows) THEN {"one answer per period, in order"}
  ELSE UNION {RowRead(a.rows[i], q.rows[i]) : i \in DOMAIN q.rows}
       \cup (IF q.op = "price" THEN UNION {RowPrice(q, a.rows[i], q.rows[i], i) : i \in DOMAIN q.rows} ELSE {})
       \cup (IF q.op = "price" /\ q.flat THEN FlatOk(q, a) ELSE {})
Queries == IF ~O.ok THEN If(I.giveup /\ O.err = "ValueError", "quotes are stripped")
           ELSE UNION {AnswerOk(I.queries[i], O.answers[i]) : i \in DOMAIN I.queries} \cup If(O.kept, "queries leave the surface as it was")

Verdict == CASE I.op = "quotes" -> Quotes [] I.op = "surface" -> Surface [] I.op = "queries" -> Queries
TraceInit == c \in 1..Len(Cases) /\ phase = "build" /\ curve = <<>> /\ lattice = <<>>
Make == phase = "build" /\ phase' = "lattice" /\ Build(Req) /\ UNCHANGED <<c, lattice>>
Lay == phase = "lattice" /\ phase' = "compare" /\ lattice' = Lattice(M, curve) /\ UNCHANGED <<c, curve>>
Compare == /\ phase = "compare" /\ phase' = "done" /\ UNCHANGED <<c, curve, lattice>>
           /\ PrintT("DONE " \o ToJson(<<c>>))
           /\ \A f \in Verdict : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == TraceInit /\ [][Make \/ Lay \/ Compare]_vars
=============================================================================
