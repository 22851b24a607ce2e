-------------------------------- MODULE CurveMC --------------------------------
(* Laws of the curve state machine over a small world: curves of two to four      *)
(* pillars built in every quote form, shifted up to MaxShift times.               *)
EXTENDS Curve
CONSTANTS Rates1, Offs, Interps, BasesC, MaxShift
VARIABLES req, sh
vars == <<curve, req, sh>>
Cal == [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {}]
Sel == {s \in SUBSET Offs : Cardinality(s) = 4}
SeqOf(s) == [i \in 1..Cardinality(s) |-> CHOOSE x \in s : Cardinality({y \in s : y < x}) = i - 1]
Init == /\ \E s \in Sel, f \in [1..4 -> Rates1], b \in BasesC, ip \in Interps, ex \in {"none", "flat"} :
              req = [cd |-> 18293, basis |-> b, cal |-> Cal, interp |-> ip, extrap |-> ex, x |-> "date", y |-> "zero", freq |-> "continuous",
                     pillars |-> [i \in 1..4 |-> [d |-> 18293 + SeqOf(s)[i], q |-> f[i]]]]
        /\ curve = <<>> /\ sh = 0
DoBuild == curve = <<>> /\ Build(req) /\ UNCHANGED <<req, sh>>
DoShift == curve # <<>> /\ sh < MaxShift /\ Shift("0.001") /\ sh' = sh + 1 /\ UNCHANGED req
Next == DoBuild \/ DoShift
Spec == Init /\ [][Next]_vars
C == "1e-9"
Built1 == curve # <<>>
T(i) == YearsOf(curve, req.pillars[i].d)
\* the curve returns its own quotes (raised by the shifts)
Reprices == Built1 => \A i \in 1..4 : RClose(RateAt(curve, "continuous", T(i)), RAdd(req.pillars[i].q, RMul("0.001", sh)), C, C)
\* the same curve whatever the quotes are expressed in
QuoteForms == (Built1 /\ sh = 0) => \A f \in {"df", "annual", "simple", "monthly"} :
   LET q == [req EXCEPT !.y = IF f = "df" THEN "df" ELSE "zero", !.freq = IF f = "df" THEN "continuous" ELSE f,
                        !.pillars = [i \in 1..4 |-> [d |-> req.pillars[i].d, q |-> LET ln == RNeg(RMul(req.pillars[i].q, T(i))) IN
                                                       IF f = "df" THEN RExp(ln) ELSE RateOfLnDF(f, T(i), ln)]]]
       cv == Built(q) IN \A i \in DOMAIN cv.ys : RClose(cv.ys[i], curve.ys[i], C, C)
PillarOrder == (Built1 /\ sh = 0) => Built([req EXCEPT !.pillars = <<req.pillars[3], req.pillars[1], req.pillars[2], req.pillars[4]>>]) = curve
StartsAtOne == Built1 => RClose(LnAt(curve, 0), 0, "0", "1e-12")
\* discounting over [s,e] and [e,t] is discounting over [s,t]
Chain == Built1 => LET s == 18293 + 20 e == 18293 + 55 t == 18293 + 90
                       tau(a, b) == Yf(curve.basis, a, b, FALSE)
                       m(a, b) == RAdd(1, RMul(FwdOn(curve, "simple", a, b, tau(a, b)), tau(a, b))) IN
                   RClose(RMul(m(s, e), m(e, t)), m(s, t), C, C)
OutOfRange == Built1 => /\ (Answered(curve, curve.last + 1) = NoDate) = (curve.extrap = "none")
                        /\ (curve.extrap = "flat" => Answered(curve, curve.cd - 5) = curve.cd)
\* the spline and its derivative fit together
Derivative == (Built1 /\ curve.interp # LnDF) => LET t == "0.2" h == "0.00001" IN
   RClose(RDiv(RSub(LnAt(curve, RSub(t, h)), LnAt(curve, RAdd(t, h))), RMul(2, h)), InstFwdAt(curve, t), "1e-5", "1e-6")
=============================================================================
