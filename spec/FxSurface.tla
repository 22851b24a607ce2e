------------------------------- MODULE FxSurface -------------------------------
(* An FX volatility surface as a state machine.  Make fixes the market: forward    *)
(* curve, two zero curves, and per pillar one volatility for every delta quote.     *)
(* Query reads a volatility (and price) for an expiry and strike; the smile of a    *)
(* day is worked out when first asked and kept.                                     *)
EXTENDS Curve, FxDates, Options

VARIABLES smiles         \* smiles worked out so far: set of [d |-> expiry, s |-> smile]

-----------------------------------------------------------------------------
\* market conventions
RegularPairs == {"audusd", "eurusd", "gbpusd", "nzdusd"}
ReversedPairs == {"usdaud", "usdeur", "usdgbp", "usdnzd"}
UsdPair(p) == p.for = "usd" \/ p.dom = "usd"
PremiumAdjusted(conv) == conv \in {"premium_adjusted_spot", "premium_adjusted_forward"}
\* the remark on a pillar: which convention the market uses, if not the given one
Remark(p, conv) == LET pair == p.for \o p.dom IN
  CASE pair \in RegularPairs /\ PremiumAdjusted(conv) -> "regular"
    [] UsdPair(p) /\ pair \notin (RegularPairs \cup ReversedPairs) /\ ~PremiumAdjusted(conv) -> "premium"
    [] OTHER -> "none"
Unconventional(p) == (p.for = "usd" /\ p.dom \in {"aud", "eur", "gbp", "nzd"}) \/ (p.dom = "usd" /\ p.for \notin {"aud", "eur", "gbp", "nzd"})

-----------------------------------------------------------------------------
\* quote columns: [k |-> kind, d |-> delta in percent, txt |-> the delta as written]
QKinds == {"call", "put", "riskreversal", "butterfly"}
Name(q) == IF q.k = "atm" THEN "atm_delta_neutral" ELSE IF q.k = "atmf" THEN "atm_forward" ELSE q.txt \o "_delta_" \o q.k
\* spellings
DeltaWords == {"delta", "Δ"}
KindWords(k) == CASE k = "call" -> {"call", "c"} [] k = "put" -> {"put", "p"} [] k = "riskreversal" -> {"risk_reversal", "risk reversal", "riskreversal", "rr"}
                  [] k = "butterfly" -> {"butterfly", "bf"}
Gaps == {"_", " ", ""}
Spellings(q) ==
  CASE q.k \in QKinds -> {q.txt \o g1 \o w \o g2 \o v : g1 \in Gaps, g2 \in Gaps, w \in DeltaWords, v \in KindWords(q.k)}
    [] q.k = "atm" -> {a \o g1 \o t \o g2 \o m \o g3 \o w \o g4 \o "neutral" : a \in {"a", "at"}, t \in {"t", "the"}, m \in {"m", "money"}, w \in DeltaWords, g1 \in Gaps, g2 \in Gaps, g3 \in Gaps, g4 \in Gaps}
    [] q.k = "atmf" -> {a \o g1 \o t \o g2 \o m \o g3 \o w : a \in {"a", "at"}, t \in {"t", "the"}, m \in {"m", "money"}, w \in {"f", "fwd", "forward"}, g1 \in Gaps, g2 \in Gaps, g3 \in Gaps}

\* a pillar's quotes qs: function from a set of columns (without text) to volatilities
Deltas(qs, k) == {q.d : q \in {p \in DOMAIN qs : p.k = k}}
Q(k, d) == [k |-> k, d |-> d]
Atm == Q("atm", 50)
Resolvable2(qs) == Atm \in DOMAIN qs /\ Deltas(qs, "riskreversal") = Deltas(qs, "butterfly")
StrategyVol(qs, cp, d) == RAdd(RAdd(qs[Atm], qs[Q("butterfly", d)]), RMul(IF cp = 1 THEN "0.5" ELSE "-0.5", qs[Q("riskreversal", d)]))
CallOrPut(cp) == IF cp = 1 THEN "call" ELSE "put"
\* call and put volatilities given directly win over those of the strategies
SmileVol(qs, cp, d) == IF Q(CallOrPut(cp), d) \in DOMAIN qs THEN qs[Q(CallOrPut(cp), d)] ELSE StrategyVol(qs, cp, d)
SmileDeltas(qs, cp) == Deltas(qs, CallOrPut(cp)) \cup Deltas(qs, "butterfly")
\* in the order of strikes: puts by rising delta, at the money, calls by falling delta
Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SmileOrder(qs) ==
  LET ps == Sorted(SmileDeltas(qs, -1)) cs == Rev(Sorted(SmileDeltas(qs, 1))) IN
  [i \in 1..Len(ps) |-> [cp |-> -1, d |-> ps[i]]] \o <<[cp |-> 1, d |-> 50]>> \o [i \in 1..Len(cs) |-> [cp |-> 1, d |-> cs[i]]]
SmileVols(qs, order) == [i \in 1..Len(order) |-> IF order[i].d = 50 THEN qs[Atm] ELSE SmileVol(qs, order[i].cp, order[i].d)]
SignedDelta(o) == RDiv(o.cp * o.d, 100)

-----------------------------------------------------------------------------
\* the forward curve: a set of points [d |-> day, f |-> rate]; linear in time, flat outside
FwdDays(fc) == {p.d : p \in fc}
FwdAt(fc, z) == (CHOOSE p \in fc : p.d = z).f
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FwdInside(fc, z) == MinOf(FwdDays(fc)) <= z /\ z <= MaxOf(FwdDays(fc))
ForwardOn(fc, z) ==
  LET ds == FwdDays(fc) lo == {d \in ds : d <= z} hi == {d \in ds : d >= z} IN
  IF lo = {} THEN FwdAt(fc, MinOf(ds)) ELSE IF hi = {} THEN FwdAt(fc, MaxOf(ds))
  ELSE LET a == MaxOf(lo) b == MinOf(hi) IN
    IF a = b THEN FwdAt(fc, a) ELSE RAdd(FwdAt(fc, a), RMul(RSub(FwdAt(fc, b), FwdAt(fc, a)), RRatio(z - a, b - a)))

-----------------------------------------------------------------------------
\* market m: [cd, lag, cal, basis, fc, spot, dom, for, pillars]; a pillar: [d |-> expiry, conv, vols]
ExpDays(m) == {p.d : p \in m.pillars}
PillarOn(m, z) == CHOOSE p \in m.pillars : p.d = z
Covered(m, z) == MinOf(ExpDays(m)) <= z /\ z <= MaxOf(ExpDays(m))
Years(m, z) == Yf(m.basis, m.cd, z, FALSE)
\* between pillars every volatility has flat forward variance, and the delta convention is that of the later pillar
SmileOn(m, z) ==
  LET a == PillarOn(m, MaxOf({d \in ExpDays(m) : d <= z})) b == PillarOn(m, MinOf({d \in ExpDays(m) : d >= z})) IN
  [tau |-> Years(m, z), F |-> ForwardOn(m.fc, z), rd |-> RateOn(m.dom, "continuous", z), rf |-> RateOn(m.for, "continuous", z), conv |-> b.conv,
   vols |-> [i \in 1..Len(a.vols) |-> IF a.d = b.d THEN a.vols[i] ELSE FlatForward(Years(m, a.d), a.vols[i], Years(m, b.d), b.vols[i], Years(m, z))]]
OptionOn(m, s, cp, k, v) == [S |-> m.spot, tau |-> s.tau, rd |-> s.rd, rf |-> s.rf, cp |-> cp, K |-> k, v |-> v, F |-> s.F]
\* the strike of quote i of a smile: at the money delta neutral (forward), or the strike with the quoted delta
IsStrike(m, s, o, v, k) ==
  LET x == OptionOn(m, s, o.cp, k, v) IN
  IF o.d = 50 THEN RClose(k, AtmStrike(IF PremiumAdjusted(s.conv) THEN s.conv ELSE "regular_forward", x), "1e-9", "0")
  ELSE /\ RClose(QuotedDelta(s.conv, x), SignedDelta(o), "1e-7", "1e-8")
       /\ o.cp = 1 => RLt(QuotedDelta(s.conv, [x EXCEPT !.K = RMul(k, "1.0001")]), QuotedDelta(s.conv, x))
\* volatility of any strike: the parabola through three quotes, the not-a-knot cubic spline through more
Parabola(xs, ys, t) ==
  LET L(i, j, k) == RMul(ys[i], RDiv(RMul(RSub(t, xs[j]), RSub(t, xs[k])), RMul(RSub(xs[i], xs[j]), RSub(xs[i], xs[k])))) IN RSum(<<L(1, 2, 3), L(2, 1, 3), L(3, 1, 2)>>)
SmileAt(ks, vs, k) == IF Len(ks) = 3 THEN Parabola(ks, vs, k) ELSE SplineAt(ks, vs, Spline(ks, vs), k)

-----------------------------------------------------------------------------
\* a simulated rate: known at the spot rate on the curve date, and lognormal on every later fixing date, with the
\* forward rate as its mean and the at the money volatility of the day as its dispersion
FixingOf(m, del) == LET z == BusAdd(m.cal, PrevBus(m.cal, del), -m.lag) IN IF z > m.cd THEN z ELSE m.cd
SimDeliveries(m, dels) == Sorted(dels \cup {m.sd})
Simulable(m, dels) == \A d \in dels : d >= m.sd /\ (FixingOf(m, d) = m.cd \/ Covered(m, FixingOf(m, d)))
SimForward(m, z) == IF z = m.cd THEN m.spot ELSE ForwardOn(m.fc, z)
SimVariance(m, k, z) == IF z = m.cd THEN R(0) ELSE LET s == SmileOn(m, z) IN RMul(Sq(s.vols[k]), s.tau)      \* k: the at the money quote
\* mean and variance of the logarithm of the step from fixing a to fixing b
StepVar(m, k, a, b) == RSub(SimVariance(m, k, b), SimVariance(m, k, a))
StepMean(m, k, a, b) == RSub(RLn(RDiv(SimForward(m, b), SimForward(m, a))), RMul("0.5", StepVar(m, k, a, b)))

Cached(z) == \E e \in smiles : e.d = z
Ask(m, z) == smiles' = IF Cached(z) THEN smiles ELSE smiles \cup {[d |-> z, s |-> SmileOn(m, z)]}
Answer(z) == (CHOOSE e \in smiles : e.d = z).s
=============================================================================
