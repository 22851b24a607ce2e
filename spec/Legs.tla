---------------------------------- MODULE Legs ----------------------------------
(* Fixed and zero coupon legs and swaps of them as a state machine.                 *)
(*                                                                                  *)
(* book   the legs, fixed by Open: [side, kind, freq, basis, rows], a row is        *)
(*        [s, e, n, p, pd, cd, rate]: period start and end, notional, notional      *)
(*        payment (both of a receiver) and its date, coupon date, contractual rate  *)
(*        (NoDate / "nan" where the row has none)                                   *)
(* env    what a valuation depends on besides: value date vd, whether payments on   *)
(*        the value date still have value (incl) and whether accrued interest is    *)
(*        limited to the unsettled coupon (limit)                                   *)
(* Set changes env; every valuation reads book and env (and the discount curve) and *)
(* leaves them unchanged: no valuation or solve depends on the ones before it.      *)
EXTENDS Curve

VARIABLES book, env
Signed(side, x) == IF side = "pay" THEN RNeg(x) ELSE x
SumOver(n, F(_)) == RSum([i \in 1..n |-> F(i)])
IsZero(x) == RLe(x, 0) /\ RLe(0, x)

Open(legs) == book' = legs
Set(e) == env' = e

\* coupon per unit of notional over yf years
Growth(l, rate, yf) == IF l.kind = "fixed" THEN RMul(rate, yf) ELSE RSub(RExp(RNeg(LnDFOfRate(l.freq, yf, rate))), 1)
\* the last row of the schedule is the termination period
RowYears(l, i) == Yf(l.basis, l.rows[i].s, l.rows[i].e, i = Len(l.rows))
Pays(l, i) == l.rows[i].cd # NoDate
CouponAt(l, i, rate) == IF Pays(l, i) THEN Signed(l.side, RMul(l.rows[i].n, Growth(l, rate, RowYears(l, i)))) ELSE "0"
Coupon(l, i) == IF Pays(l, i) THEN CouponAt(l, i, l.rows[i].rate) ELSE "0"
Principal(l, i) == Signed(l.side, l.rows[i].p)

Due(e, d) == d # NoDate /\ (d > e.vd \/ (e.incl /\ d = e.vd))
\* value of an amount paid on d; not a number when the curve has no discount factor for a payment which is due
ValueOf(cv, e, d, x) == IF ~Due(e, d) THEN "0" ELSE LET f == DFOn(cv, d) IN IF RIsNaN(f) THEN "nan" ELSE RMul(x, f)
DirtyWith(cv, e, l, C(_)) == SumOver(Len(l.rows), LAMBDA i : RAdd(ValueOf(cv, e, l.rows[i].cd, C(i)), ValueOf(cv, e, l.rows[i].pd, Principal(l, i))))
Dirty(cv, e, l) == DirtyWith(cv, e, l, LAMBDA i : Coupon(l, i))
DirtyAt(cv, e, l, rate) == DirtyWith(cv, e, l, LAMBDA i : CouponAt(l, i, rate))
Outstanding(e, l) == SumOver(Len(l.rows), LAMBDA i : IF Due(e, l.rows[i].pd) THEN Principal(l, i) ELSE "0")

\* interest accrued in the period under way, and coupons of completed periods which are not settled yet
UnderWay(e, l) == {i \in 1..Len(l.rows) : l.rows[i].s # NoDate /\ l.rows[i].s <= e.vd /\ e.vd < l.rows[i].e}
Running(e, l) == SumOver(Len(l.rows), LAMBDA i : IF i \in UnderWay(e, l)
                   THEN Signed(l.side, RMul(l.rows[i].n, Growth(l, l.rows[i].rate, Yf(l.basis, l.rows[i].s, e.vd, TRUE)))) ELSE "0")
Unsettled(e, l) == SumOver(Len(l.rows), LAMBDA i : IF Due(e, l.rows[i].cd) /\ l.rows[i].e <= e.vd THEN Coupon(l, i) ELSE "0")
AccruedOf(e, l) == LET u == Unsettled(e, l) IN IF e.limit THEN (IF IsZero(u) THEN Running(e, l) ELSE u) ELSE RAdd(Running(e, l), u)
Clean(cv, e, l) == RSub(Dirty(cv, e, l), AccruedOf(e, l))

\* value of what is paid within a year, and of the rest
OneYear(e) == AddMonths(e.vd, 12)
WithinYear(e, d) == d # NoDate /\ (d < OneYear(e) \/ (e.incl /\ d = OneYear(e)))
Part(cv, e, l, In(_)) == SumOver(Len(l.rows), LAMBDA i : RAdd(IF In(l.rows[i].cd) THEN ValueOf(cv, e, l.rows[i].cd, Coupon(l, i)) ELSE "0",
                                                            IF In(l.rows[i].pd) THEN ValueOf(cv, e, l.rows[i].pd, Principal(l, i)) ELSE "0"))
CurrentPart(cv, e, l) == Part(cv, e, l, LAMBDA d : WithinYear(e, d))
NonCurrentPart(cv, e, l) == Part(cv, e, l, LAMBDA d : ~WithinYear(e, d))

\* undiscounted payments by years to payment: bucket k holds what is due before the end of its last year and not earlier
BucketOf(e, years, d) == Cardinality({k \in DOMAIN years : AddMonths(e.vd, 12 * years[k]) <= d}) + 1
BucketCoupons(e, l, years, k) == SumOver(Len(l.rows), LAMBDA i : IF Due(e, l.rows[i].cd) /\ BucketOf(e, years, l.rows[i].cd) = k THEN Coupon(l, i) ELSE "0")
BucketPrincipal(e, l, years, k) == SumOver(Len(l.rows), LAMBDA i : IF Due(e, l.rows[i].pd) /\ BucketOf(e, years, l.rows[i].pd) = k THEN Principal(l, i) ELSE "0")

\* the rate at which a leg is worth v: between -10% and 300%, none when no such rate exists
LowRate == "-0.1"
HighRate == "3"
Scale(l) == SumOver(Len(l.rows), LAMBDA i : RAdd(RAbs(l.rows[i].n), RAbs(l.rows[i].p)))
Solves(cv, e, l, v, got) ==
  LET lo == RSub(DirtyAt(cv, e, l, LowRate), v) hi == RSub(DirtyAt(cv, e, l, HighRate), v)
      tol == RMul("1e-9", RSum(<<RAbs(lo), RAbs(hi), Scale(l)>>))
      clear == RIsNum(lo) /\ RIsNum(hi) /\ RLt(tol, RAbs(lo)) /\ RLt(tol, RAbs(hi))
      bracketed == RLt(lo, 0) # RLt(hi, 0)
      fits == RIsNum(got) /\ RLe(RSub(LowRate, "1e-9"), got) /\ RLe(got, RAdd(HighRate, "1e-9")) /\ RLe(RAbs(RSub(DirtyAt(cv, e, l, got), v)), tol)
  IN IF ~RIsNum(lo) \/ ~RIsNum(hi) THEN ~RIsNum(got) ELSE IF ~clear THEN TRUE ELSE IF bracketed THEN fits ELSE ~RIsNum(got)

\* a swap is its two legs, one paid and one received
Other(k) == 3 - k
SwapDirty(cv, e) == RAdd(Dirty(cv, e, book[1]), Dirty(cv, e, book[2]))
SwapAccrued(e) == RAdd(AccruedOf(e, book[1]), AccruedOf(e, book[2]))
SwapClean(cv, e) == RSub(SwapDirty(cv, e), SwapAccrued(e))
=============================================================================
