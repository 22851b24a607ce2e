--------------------------------- MODULE LegsMC ---------------------------------
(* Small books of legs, valued on every day of their life under every setting.     *)
EXTENDS Legs
CONSTANTS LegKinds, Interps, Lags, Ends
vars == <<curve, book, env>>
Nowhere == [mask |-> <<1, 1, 1, 1, 1, 1, 1>>, hols |-> {}]
T0 == 19738
Req(x) == [cd |-> T0, x |-> "days", y |-> "zero", freq |-> "continuous", basis |-> "act/365", interp |-> x, extrap |-> "none", cal |-> Nowhere,
           pillars |-> [k \in 1..5 |-> [n |-> 200 * k, q |-> RAdd("0.02", RMul("0.004", k))]]]
Bounds == <<T0 - 100, T0 + 82, T0 + 265, T0 + 446>>
Row(s, e, n, p, pd, cd, r) == [s |-> s, e |-> e, n |-> n, p |-> p, pd |-> pd, cd |-> cd, rate |-> r]
Leg(side, kind, lag, rate, amort) ==
  LET n(i) == IF amort THEN 130 - 10 * i ELSE 100 IN
  [side |-> side, kind |-> kind, freq |-> "annual", basis |-> "30/360",
   rows |-> <<Row(NoDate, NoDate, 0, -n(1), Bounds[1], NoDate, "nan")>> \o
            [i \in 1..3 |-> Row(Bounds[i], Bounds[i + 1], n(i), IF i = 3 THEN n(3) ELSE n(i) - n(i + 1), Bounds[i + 1] + lag, Bounds[i + 1] + lag, rate)]]
Init == /\ \E x \in Interps : curve = Built(Req(x))
        /\ \E k1 \in LegKinds, k2 \in LegKinds, lag \in Lags, a \in BOOLEAN : book = <<Leg("rcv", k1, lag, "0.05", a), Leg("pay", k2, lag, "0.03", FALSE)>>
        /\ \E i \in BOOLEAN, m \in BOOLEAN : env = [vd |-> T0 - 110, incl |-> i, limit |-> m]
Next == env.vd < Ends /\ Set([env EXCEPT !.vd = @ + 3]) /\ UNCHANGED <<curve, book>>
Spec == Init /\ [][Next]_vars
Same(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RClose(a, b, "1e-12", "1e-10")
Turned(l) == [l EXCEPT !.side = IF @ = "pay" THEN "rcv" ELSE "pay"]
\* what one side receives the other pays
Mirror == \A k \in {1, 2} : /\ Same(Dirty(curve, env, Turned(book[k])), RNeg(Dirty(curve, env, book[k])))
                            /\ Same(AccruedOf(env, Turned(book[k])), RNeg(AccruedOf(env, book[k])))
\* current and non-current parts make the whole; so do the buckets
Parts == \A k \in {1, 2} : Same(RAdd(CurrentPart(curve, env, book[k]), NonCurrentPart(curve, env, book[k])), Dirty(curve, env, book[k]))
Buckets == \A k \in {1, 2} : LET l == book[k] ys == <<1, 2>> IN
  Same(SumOver(3, LAMBDA b : RAdd(BucketCoupons(env, l, ys, b), BucketPrincipal(env, l, ys, b))),
       SumOver(Len(l.rows), LAMBDA i : RAdd(IF Due(env, l.rows[i].cd) THEN Coupon(l, i) ELSE "0", IF Due(env, l.rows[i].pd) THEN Principal(l, i) ELSE "0")))
\* nothing is owed before the start or after the last settlement; interest grows within a period and never exceeds its coupon
Accrues == \A k \in {1, 2} : LET l == book[k] a == RAbs(AccruedOf([env EXCEPT !.limit = FALSE], l)) u == RAbs(Unsettled(env, l)) IN
  /\ (env.vd <= Bounds[1] \/ env.vd > Bounds[4] + 20 => IsZero(a))
  /\ \A i \in UnderWay(env, l) : RLe(RAbs(Running(env, l)), RAbs(Coupon(l, i)))
  /\ RLe(u, a)
Dead == \A k \in {1, 2} : env.vd > Bounds[4] + 20 => IsZero(Dirty(curve, env, book[k]))
\* one basis point on a fixed leg is worth its annuity, so value is linear in the rate
Linear == \A k \in {1, 2} : book[k].kind = "fixed" => LET v(r) == DirtyAt(curve, env, book[k], r) IN Same(RSub(v("0.04"), v("0.02")), RSub(v("0.06"), v("0.04")))
=============================================================================
