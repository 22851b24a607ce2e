------------------------------ MODULE FixingsMC ------------------------------
(* An index publishing fixings day by day, over a small world: laws of the        *)
(* coupons which no new publication may disturb.                                   *)
EXTENDS Fixings
CONSTANTS Start, Len0, Rts, Holidays
VARIABLES fx, now
vars == <<fx, now, curve>>
Init == fx = {} /\ now = Start /\ curve = <<>>
Publish == now < Start + Len0 /\ now \notin Holidays /\ \E r \in Rts : fx' = fx \cup {[d |-> now, r |-> r]} /\ now' = now + 1 /\ UNCHANGED curve
Skip == now < Start + Len0 /\ now \in Holidays /\ now' = now + 1 /\ UNCHANGED <<fx, curve>>
Next == Publish \/ Skip
Spec == Init /\ [][Next]_vars
Periods == {p \in (Start .. (now - 1)) \X ((Start + 1) .. now) : p[1] < p[2] /\ Available(fx, p[1], p[2])}
C == "1e-12"
Methods == {"daily_compounded", "weighted_average", "simple_average"}
\* a coupon lies between the least and greatest rate in force (compounding aside)
Bounded == \A p \in Periods : LET v == HistCoupon(fx, "act/360", "weighted_average", p[1], p[2]) IN
   \E d1, d2 \in p[1] .. (p[2] - 1) : RLe(InForce(fx, d1), RAdd(v, C)) /\ RLe(v, RAdd(InForce(fx, d2), C))
\* compounding over [a,b] and [b,c] is compounding over [a,c]
Growth(s, e) == RAdd(1, RDiv(RMul(HistCoupon(fx, "act/360", "daily_compounded", s, e), e - s), 360))
Chained == \A p \in Periods : \A m \in (p[1] + 1) .. (p[2] - 1) : RClose(RMul(Growth(p[1], m), Growth(m, p[2])), Growth(p[1], p[2]), C, C)
\* publications after the period do not change its coupon
NoLookAhead == \A p \in Periods : \A m \in Methods :
   HistCoupon(fx, "act/360", m, p[1], p[2]) = HistCoupon({f \in fx : f.d < p[2]}, "act/360", m, p[1], p[2])
=============================================================================
