------------------------------- MODULE CashflowsMC -------------------------------
(* Exhaustive small world: every object class, exchange mode, notional profile, *)
(* timing and lag, followed by every order of up to MaxOps column operations.   *)
EXTENDS Cashflows
CONSTANTS MaxOps
VARIABLES req, n, built
vars == <<cal, conv, rows, cols, req, n, built>>
P3 == <<<<18262, 18293>>, <<18293, 18321>>, <<18321, 18350>>>>
Init == /\ cal = [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {18293, 18321, 18322, 18350, 18351}]
        /\ conv \in {"unadjusted", "following", "modifiedfollowing", "preceding"}
        /\ rows = <<>> /\ cols = [x \in {} |-> <<>>] /\ n = 0 /\ built = FALSE
        /\ \E cls \in {"base", "notional", "coupon"}, ex \in {"start", "end", "both", "neither"}, ns \in {<<5>>, <<7, 4, 4>>, <<2, 3, 1>>},
             nt \in {"in_arrears", "in_advance"}, ct \in {"in_arrears", "in_advance"}, lag \in {0, 1, 3}, p \in {<<P3[1]>>, P3} :
             /\ Len(ns) \in {1, Len(p)}
             /\ req = [cls |-> cls, exch |-> ex, ns |-> ns, ntiming |-> nt, ctiming |-> ct, nlag |-> lag, clag |-> lag, init |-> NoDate, periods |-> p]
Build == ~built /\ built' = TRUE /\ Construct(req) /\ UNCHANGED <<req, n>>
Op == /\ built /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<req, built>>
      /\ \/ \E t \in {"in_arrears", "in_advance"}, l \in {0, 2} : AddPayments("payment_date", t, l)
         \/ \E b \in {"act/360", "act/act", "30e/360_isda"} : AddDayCounts(b) \/ AddYearFracs(b)
Next == Build \/ Op
Spec == Init /\ [][Next]_vars
Rect == built => Rectangular
Cons == built => Conserved(req.exch, req.ns)
PayBus == PaymentsOnBusinessDays
\* column operations never touch the periods or the principal
Frame == [][built => rows' = rows /\ (\A x \in {"notional", "notional_payment", "notional_payment_date", "coupon_payment_date"} \cap DOMAIN cols : cols'[x] = cols[x])]_vars
=============================================================================
