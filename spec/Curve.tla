--------------------------------- MODULE Curve ---------------------------------
(* A zero curve as a state machine: Build fixes the curve; Query, Forward,        *)
(* InstFwd read it (in any order and number, leaving it unchanged) and Shift      *)
(* replaces it by its parallel shift.                                             *)
(*                                                                                *)
(* curve.xs / curve.ys  knots: years and ln discount factor (the continuously     *)
(*        compounded rate for "cubic_spline_on_cczr")                             *)
(* curve.ms  second derivatives of the not-a-knot cubic spline through the knots  *)
EXTENDS DayCount, Tenor, Rates

VARIABLES curve
LnDF == "linear_on_ln_discount"
SplLn == "cubic_spline_on_ln_discount"
SplZr == "cubic_spline_on_cczr"

Yf(basis, s, e, term) == LET y == YearFrac(basis, s, e, term) IN RRatio(y[1], y[2])

-----------------------------------------------------------------------------
\* not-a-knot cubic spline: second derivatives at the knots (at least four knots)
H(xs, i) == RSub(xs[i + 1], xs[i])
SplineRow(xs, i) ==
  LET n == Len(xs) zero == [j \in 1..n |-> "0"] IN
  CASE i = 1 -> [zero EXCEPT ![1] = H(xs, 2), ![2] = RNeg(RAdd(H(xs, 1), H(xs, 2))), ![3] = H(xs, 1)]
    [] i = n -> [zero EXCEPT ![n] = H(xs, n - 2), ![n - 1] = RNeg(RAdd(H(xs, n - 1), H(xs, n - 2))), ![n - 2] = H(xs, n - 1)]
    [] OTHER -> [zero EXCEPT ![i - 1] = H(xs, i - 1), ![i] = RMul(2, RAdd(H(xs, i - 1), H(xs, i))), ![i + 1] = H(xs, i)]
Slope(xs, ys, i) == RDiv(RSub(ys[i + 1], ys[i]), H(xs, i))
SplineRhs(xs, ys, i) == IF i \in {1, Len(xs)} THEN "0" ELSE RMul(6, RSub(Slope(xs, ys, i), Slope(xs, ys, i - 1)))
Spline(xs, ys) == RSolve([i \in 1..Len(xs) |-> SplineRow(xs, i)], [i \in 1..Len(xs) |-> SplineRhs(xs, ys, i)])

\* the segment used at t (end segments extend beyond the knots)
Seg(xs, t) == LET s == {i \in 1..(Len(xs) - 1) : RLe(xs[i], t)} IN IF s = {} THEN 1 ELSE CHOOSE i \in s : \A j \in s : j <= i
SplineAt(xs, ys, ms, t) ==
  LET i == Seg(xs, t) h == H(xs, i) a == RSub(xs[i + 1], t) b == RSub(t, xs[i]) IN
  RSum(<<RDiv(RMul(ms[i], RMul(a, RMul(a, a))), RMul(6, h)), RDiv(RMul(ms[i + 1], RMul(b, RMul(b, b))), RMul(6, h)),
         RMul(RSub(RDiv(ys[i], h), RDiv(RMul(ms[i], h), 6)), a), RMul(RSub(RDiv(ys[i + 1], h), RDiv(RMul(ms[i + 1], h), 6)), b)>>)
SplineD(xs, ys, ms, t) ==
  LET i == Seg(xs, t) h == H(xs, i) a == RSub(xs[i + 1], t) b == RSub(t, xs[i]) IN
  RSum(<<RNeg(RDiv(RMul(ms[i], RMul(a, a)), RMul(2, h))), RDiv(RMul(ms[i + 1], RMul(b, b)), RMul(2, h)),
         Slope(xs, ys, i), RDiv(RMul(RSub(ms[i], ms[i + 1]), h), 6)>>)
\* linear interpolation, flat outside the knots
LinearAt(xs, ys, t) ==
  LET n == Len(xs) i == Seg(xs, t) IN
  IF RLe(t, xs[1]) THEN ys[1] ELSE IF RLe(xs[n], t) THEN ys[n]
  ELSE RAdd(ys[i], RMul(Slope(xs, ys, i), RSub(t, xs[i])))

-----------------------------------------------------------------------------
\* ln discount factor, continuously compounded rate and instantaneous forward rate at t years
LnAt(cv, t) == CASE cv.interp = LnDF -> LinearAt(cv.xs, cv.ys, t)
                 [] cv.interp = SplLn -> SplineAt(cv.xs, cv.ys, cv.ms, t)
                 [] cv.interp = SplZr -> RNeg(RMul(t, SplineAt(cv.xs, cv.ys, cv.ms, t)))
InstFwdAt(cv, t) == IF cv.interp = SplLn THEN RNeg(SplineD(cv.xs, cv.ys, cv.ms, t))
                    ELSE RAdd(SplineAt(cv.xs, cv.ys, cv.ms, t), RMul(t, SplineD(cv.xs, cv.ys, cv.ms, t)))
RateAt(cv, f, t) == RateOfLnDF(f, t, LnAt(cv, t))

\* years of a date: the last date of the curve is its termination date
YearsOf(cv, d) == Yf(cv.basis, cv.cd, d, d = cv.last)
\* the date a query is answered at: out of range dates have no answer, or that of the nearest curve date
Answered(cv, d) == IF cv.cd <= d /\ d <= cv.last THEN d
                   ELSE IF cv.extrap = "none" THEN NoDate ELSE IF d < cv.cd THEN cv.cd ELSE cv.last

-----------------------------------------------------------------------------
\* r: the construction request; a pillar is [d |-> date] / [n |-> days] / [t |-> tenor] / [yrs |-> real], with a quote q
PillarDate(r, p) == CASE r.x = "date" -> p.d [] r.x = "days" -> r.cd + p.n
                      [] r.x = "tenor" -> NextBus(r.cal, Reach(p.t, r.cd))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE LastWithin(_, _, _, _)
LastWithin(basis, cd, d, lim) == IF RLe(Yf(basis, cd, d + 1, TRUE), lim) THEN LastWithin(basis, cd, d + 1, lim) ELSE d
RMaxOf(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)

Built(r) ==
  LET n == Len(r.pillars)
      dates == IF r.x = "years" THEN <<>> ELSE [i \in 1..n |-> PillarDate(r, r.pillars[i])]
      last == IF r.x = "years" THEN LET lim == RMaxOf({r.pillars[i].yrs : i \in 1..n}) IN LastWithin(r.basis, r.cd, r.cd + MaxOf({0, RFloor(RMul(lim, 359)) - 6}), lim)
              ELSE MaxOf({dates[i] : i \in 1..n})
      years == [i \in 1..n |-> IF r.x = "years" THEN r.pillars[i].yrs ELSE Yf(r.basis, r.cd, dates[i], i = n)]
      ln == [i \in 1..n |-> IF r.y = "df" THEN RLn(r.pillars[i].q) ELSE LnDFOfRate(r.freq, years[i], r.pillars[i].q)]
      cc == [i \in 1..n |-> IF r.y = "zero" /\ RLe(years[i], 0) THEN (IF r.freq = "simple" THEN r.pillars[i].q ELSE Convert(r.freq, "continuous", r.pillars[i].q)) ELSE RNeg(RDiv(ln[i], years[i]))]
      rank(i) == Cardinality({j \in 1..n : RLt(years[j], years[i])}) + 1
      at == [k \in 1..n |-> CHOOSE i \in 1..n : rank(i) = k]
      sx == [k \in 1..n |-> years[at[k]]]
      sy == [k \in 1..n |-> IF r.interp = SplZr THEN cc[at[k]] ELSE ln[at[k]]]
      origin == r.interp # SplZr /\ RLt(0, sx[1])
      xs == IF origin THEN <<"0">> \o sx ELSE sx
      ys == IF origin THEN <<"0">> \o sy ELSE sy
  IN [cd |-> r.cd, basis |-> r.basis, cal |-> r.cal, interp |-> r.interp, extrap |-> r.extrap, last |-> last, xs |-> xs, ys |-> ys,
      ms |-> IF r.interp = LnDF THEN <<>> ELSE Spline(xs, ys)]

\* every continuously compounded rate raised by b
Shifted(cv, b) ==
  LET ys == [i \in 1..Len(cv.ys) |-> IF cv.interp = SplZr THEN RAdd(cv.ys[i], b) ELSE RSub(cv.ys[i], RMul(b, cv.xs[i]))]
  IN [cv EXCEPT !.ys = ys, !.ms = IF cv.interp = LnDF THEN <<>> ELSE Spline(cv.xs, ys)]

Build(r) == curve' = Built(r)
Shift(b) == curve' = Shifted(curve, b)

-----------------------------------------------------------------------------
\* observations
DFOn(cv, d) == LET a == Answered(cv, d) IN IF a = NoDate THEN "nan" ELSE RExp(LnAt(cv, YearsOf(cv, a)))
RateOn(cv, f, d) == LET a == Answered(cv, d) IN IF a = NoDate THEN "nan" ELSE RateAt(cv, f, YearsOf(cv, a))

\* forward rate over [s, e]; tau the year fraction of the period
FwdOn(cv, kind, s, e, tau) ==
  LET g == RSub(LnAt(cv, YearsOf(cv, s)), LnAt(cv, YearsOf(cv, e))) IN
  CASE kind \in {"simple", "daily_compounded"} -> RDiv(RSub(RExp(g), 1), tau)
    [] kind = "continuous" -> RDiv(g, tau)
    [] kind = "annual" -> RSub(RExp(RDiv(g, tau)), 1)
\* the simple rate of the single day from d, and its average over the (business) days of a period
DayRate(cv, d) ==
  LET g == RSub(RExp(RSub(LnAt(cv, YearsOf(cv, d)), LnAt(cv, YearsOf(cv, d + 1)))), 1)
  IN RDiv(g, IF cv.basis = "act/act" THEN Yf(cv.basis, d, d + 1, FALSE) ELSE RRatio(1, CASE cv.basis = "act/365" -> 365 [] cv.basis = "act/366" -> 366 [] OTHER -> 360))
AverageOn(cv, kind, s, e) ==
  LET days == {d \in s .. (e - 1) : kind = "weighted_average" \/ IsBus(cv.cal, d)}
      seq == [i \in 1..(e - s) |-> IF (s + i - 1) \in days THEN DayRate(cv, s + i - 1) ELSE "0"]
  IN RDiv(RSum(seq), Cardinality(days))
=============================================================================
