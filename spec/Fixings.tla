-------------------------------- MODULE Fixings --------------------------------
(* Historical fixings of a swap index and their combination with a zero curve.    *)
(* fx is a set of records [d |-> day, r |-> real] with distinct days.              *)
EXTENDS Curve

Last(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the fixing in force on a day: that of the latest fixing day up to it
FixDays(fx) == {f.d : f \in fx}
FixOn(fx, z) == (CHOOSE f \in fx : f.d = z).r
InForce(fx, z) == LET s == {d \in FixDays(fx) : d <= z} IN IF s = {} THEN "nan" ELSE FixOn(fx, Last(s))
DaysPerYear(basis) == CASE basis = "act/365" -> 365 [] basis = "act/366" -> 366 [] OTHER -> 360

\* an overnight-index coupon accrues over the days s .. e-1; the fixings must reach over all of them
Available(fx, s, e) == \E f \in fx : f.d <= s /\ \E g \in fx : g.d >= e - 1
DayRates(fx, s, e) == [i \in 1..(e - s) |-> InForce(fx, s + i - 1)]
FixedDays(fx, s, e) == {d \in FixDays(fx) : s <= d /\ d < e}
HistCoupon(fx, basis, method, s, e) ==
  CASE method = "daily_compounded" ->
         LET p == DaysPerYear(basis) rs == DayRates(fx, s, e) IN
         RDiv(RMul(RSub(RProd([i \in 1..(e - s) |-> RAdd(1, RDiv(rs[i], p))]), 1), p), e - s)
    [] method = "weighted_average" -> RDiv(RSum(DayRates(fx, s, e)), e - s)
    [] method = "simple_average" ->
         LET ds == FixedDays(fx, s, e) IN
         IF ds = {} THEN "nan" ELSE RDiv(RSum([i \in 1..(e - s) |-> IF (s + i - 1) \in ds THEN FixOn(fx, s + i - 1) ELSE "0"]), Cardinality(ds))

\* the coupon of a period that starts before and ends after the curve date: accrue to the curve date at past fixings, then at the forward rate
CrossCoupon(fx, cv, s, e) ==
  LET th == Yf(cv.basis, s, cv.cd, FALSE) tf == Yf(cv.basis, cv.cd, e, FALSE)
      h == HistCoupon(fx, cv.basis, "daily_compounded", s, cv.cd)
      f == FwdOn(cv, "daily_compounded", cv.cd, e, tf)
  IN RDiv(RSub(RMul(RAdd(1, RMul(h, th)), RAdd(1, RMul(f, tf))), 1), RAdd(th, tf))

RfrForward(cv, method, s, e) == IF method = "daily_compounded" THEN FwdOn(cv, method, s, e, Yf(cv.basis, s, e, FALSE)) ELSE AverageOn(cv, method, s, e)
RfrCoupon(fx, cv, method, s, e) ==
  IF s >= cv.cd THEN RfrForward(cv, method, s, e)
  ELSE IF e <= cv.cd THEN HistCoupon(fx, cv.basis, method, s, e)
  ELSE CrossCoupon(fx, cv, s, e)
\* a term rate is fixed at the start of its period: by the index if that is before the curve date, else at the forward rate
TermCoupon(fx, cv, kind, s, e) == IF s < cv.cd THEN InForce(fx, s) ELSE FwdOn(cv, kind, s, e, Yf(cv.basis, s, e, FALSE))
=============================================================================
