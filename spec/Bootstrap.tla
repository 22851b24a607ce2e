------------------------------- MODULE Bootstrap -------------------------------
(* Bootstrapping the short end of a curve: discount factors become known one      *)
(* instrument at a time, deposits in the order of their maturities, then futures   *)
(* in the order of their start dates.                                              *)
(* known: the set of known points [d |-> day, t |-> years, y |-> ln discount       *)
(* factor]; the curve date itself has discount factor one.                         *)
EXTENDS Rates, Tenor, DayCount

YfQ(basis, s, e) == LET y == YearFrac(basis, s, e, FALSE) IN RRatio(y[1], y[2])
EarliestBy(S, f(_)) == CHOOSE x \in S : \A z \in S : f(x) <= f(z)

-----------------------------------------------------------------------------
\* quotes: overnight starts on the curve date, every other tenor on the settlement date
SettleOn(cal, cd, lag) == BusAdd(cal, NextBus(cal, cd), lag)
QuoteStart(q, cd, sd) == IF q.t.k = "on" THEN cd ELSE sd
QuoteEnd(cal, q, start) == NextBus(cal, Reach(q.t, start))

\* deposits: records [s, e, r, tau]
DepositStartKnown(known, cd, q) == q.s = cd \/ \E p \in known : p.d = q.s
DepositStartLn(known, cd, q) == IF q.s = cd THEN R(0) ELSE (CHOOSE p \in known : p.d = q.s).y
GrowthLn(r, tau) == RLn(RAdd(1, RMul(r, tau)))
AddDeposit(known, cd, yb, q) ==
  LET a == DepositStartLn(known, cd, q) IN known \cup {[d |-> q.e, t |-> YfQ(yb, cd, q.e), y |-> RSub(a, GrowthLn(q.r, q.tau))]}
RECURSIVE Deposits(_, _, _, _)
Deposits(known, cd, yb, todo) ==
  IF todo = {} THEN known
  ELSE LET q == EarliestBy(todo, LAMBDA z : z.e) IN Deposits(AddDeposit(known, cd, yb, q), cd, yb, todo \ {q})
\* every deposit starts on the curve date or on the maturity of an earlier deposit
Chainable(cd, todo) == \A q \in todo : q.s = cd \/ \E p \in todo : p.e = q.s

-----------------------------------------------------------------------------
\* futures: records [s, e, f, tau] with forward rate f; between and beyond the known points the log discount factor is linear
Below(known, t) == {p \in known : RLe(p.t, t)}
Upper(S) == CHOOSE p \in S : \A q \in S : RLe(q.t, p.t)
Lower(S) == CHOOSE p \in S : \A q \in S : RLe(p.t, q.t)
Line(a, b, t) == RAdd(a.y, RMul(RDiv(RSub(b.y, a.y), RSub(b.t, a.t)), RSub(t, a.t)))
LnLinear(known, t) ==
  LET lo == Below(known, t) hi == known \ lo IN
  IF lo = {} THEN LET a == Lower(hi) IN Line(a, Lower(hi \ {a}), t)
  ELSE IF hi = {} THEN LET b == Upper(lo) IN Line(Upper(lo \ {b}), b, t)
  ELSE Line(Upper(lo), Lower(hi), t)
FutureRate(price) == RDiv(RSub(100, price), 100)
ForwardOf(rate, convexity_bps) == RSub(rate, RDiv(convexity_bps, 10000))
FutureStartLn(known, cd, yb, q) == LnLinear(known, YfQ(yb, cd, q.s))
AddFuture(known, cd, yb, q) == known \cup {[d |-> q.e, t |-> YfQ(yb, cd, q.e), y |-> RSub(FutureStartLn(known, cd, yb, q), GrowthLn(q.f, q.tau))]}
EarlierFutures(q, qs) == {p \in qs : p.s < q.s}
RECURSIVE Futures(_, _, _, _)
Futures(known, cd, yb, todo) ==
  IF todo = {} THEN known
  ELSE LET q == EarliestBy(todo, LAMBDA z : z.s) IN Futures(AddFuture(known, cd, yb, q), cd, yb, todo \ {q})

-----------------------------------------------------------------------------
\* ASX 90-day bank bill futures: settle on the second Friday of the delivery month
DeliveryMonth(code) == CASE code = "H" -> 3 [] code = "M" -> 6 [] code = "U" -> 9 [] code = "Z" -> 12
SecondFriday(y, m) == LET first == DaysFromCivil(y, m, 1) IN first + ((5 - Weekday(first)) % 7) + 7
\* one digit: a year of the 2020s; two digits: of this century; four digits: itself
YearOf(digits, n) == CASE digits = 1 -> 2020 + n [] digits = 2 -> 2000 + n [] digits = 4 -> n
BankBill(cal, y, m) == LET s == SecondFriday(y, m) IN [expiry |-> s - 1, settle |-> s, s |-> s, e |-> NextBus(cal, AddMonths(s, 3))]
=============================================================================
