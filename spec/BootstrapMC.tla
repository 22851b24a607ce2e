------------------------------ MODULE BootstrapMC ------------------------------
(* All orders of adding small sets of deposits and futures.                        *)
EXTENDS Bootstrap
CONSTANTS MaxDep, MaxFut
VARIABLES known, dep, fut, phase
vars == <<known, dep, fut, phase>>
CD == 19746
Tau(s, e) == YfQ("act/365", s, e)
DepWorld == {[s |-> s, e |-> e, r |-> r, tau |-> Tau(s, e)] : s \in {CD, CD + 1}, e \in {CD + 1, CD + 8, CD + 92, CD + 185}, r \in {"0.04", "-0.002"}}
FutWorld == {[s |-> s, e |-> s + 91, f |-> r, tau |-> Tau(s, s + 91)] : s \in {CD + 30, CD + 120, CD + 212}, r \in {"0.05", "0"}}
Init == known = {} /\ dep = {} /\ fut = {} /\ phase = "deposits"
CanDep(q) == /\ q.s < q.e /\ DepositStartKnown(known, CD, q) /\ \A p \in dep : p.e # q.e
AddDep == /\ phase = "deposits" /\ Cardinality(dep) < MaxDep
          /\ \E q \in DepWorld : CanDep(q) /\ known' = AddDeposit(known, CD, "act/365", q) /\ dep' = dep \cup {q} /\ UNCHANGED <<fut, phase>>
Switch == phase = "deposits" /\ Cardinality(dep) >= 2 /\ phase' = "futures" /\ UNCHANGED <<known, dep, fut>>
AddFut == /\ phase = "futures" /\ Cardinality(fut) < MaxFut
          /\ \E q \in FutWorld : /\ \A p \in fut : p.s < q.s
                                 /\ \A p \in known : p.d # q.e
                                 /\ known' = AddFuture(known, CD, "act/365", q) /\ fut' = fut \cup {q} /\ UNCHANGED <<dep, phase>>
Next == AddDep \/ Switch \/ AddFut
Spec == Init /\ [][Next]_vars
LnOn(d) == IF d = CD THEN R(0) ELSE (CHOOSE p \in known : p.d = d).y
\* every deposit is repriced by the points found so far, whatever the order in which they were added
DepositsReprice == \A q \in dep : RClose(RSub(RExp(RSub(LnOn(q.s), LnOn(q.e))), 1), RMul(q.r, q.tau), "1e-11", "1e-14")
OrderFree == phase = "deposits" => LET k == Deposits({}, CD, "act/365", dep) IN \A p \in known : \E q \in k : q.d = p.d /\ RClose(q.y, p.y, "1e-12", "1e-15")
\* a future is repriced by the curve of the points known before it
FuturesReprice == \A q \in fut : LET before == Futures(Deposits({}, CD, "act/365", dep), CD, "act/365", EarlierFutures(q, fut)) IN
                     RClose(RSub(RExp(RSub(FutureStartLn(before, CD, "act/365", q), LnOn(q.e))), 1), RMul(q.f, q.tau), "1e-10", "1e-13")
\* the line goes through the points
ThroughPoints == Cardinality(known) >= 2 => \A p \in known : RClose(LnLinear(known, p.t), p.y, "1e-12", "1e-15")
\* second Fridays
Fridays == \A y \in {2005, 2020, 2024, 2025, 2030} : \A m \in {3, 6, 9, 12} : LET z == SecondFriday(y, m) IN Weekday(z) = 5 /\ Civil(z).m = m /\ Civil(z).d \in 8..14
=============================================================================
