---------------------------- MODULE HullWhiteTrace ----------------------------
(* Recorded Hull-White models: a curve is built, a model fitted to it, and asked   *)
(* in any order; simulated paths are checked step by step.                         *)
EXTENDS HullWhite, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
\* dt: the step slopes are taken over; tol: the accuracy of the theta grid
VARIABLES c, l, bad, dt, tol
vars == <<curve, c, l, bad, dt, tol>>
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
AsSet(s) == {s[i] : i \in DOMAIN s}
Req(r) == [r EXCEPT !.cal = [mask |-> r.cal.mask, hols |-> AsSet(r.cal.hols)]]
M == I.model
Ev == I.events[l]
Got == O.events[l]
Row(xs, i) == xs[IF Len(xs) = 1 THEN 1 ELSE i]
Rows(e) == CHOOSE n \in {Len(e.t), Len(e.s), Len(e.k), Len(e.cp)} : \A m \in {Len(e.t), Len(e.s), Len(e.k), Len(e.cp)} : m <= n

Zcb == If(Len(Got.v) = Rows(Ev) /\ \A i \in 1..Rows(Ev) : RClose(Got.v[i], BondOption(curve, M, Row(Ev.cp, i), Row(Ev.t, i), Row(Ev.s, i), Row(Ev.k, i)), "1e-8", "1e-12"), "value of each bond option")
Let == If(Len(Got.v) = Rows(Ev) /\ \A i \in 1..Rows(Ev) : RClose(Got.v[i], Optionlet(curve, M, Row(Ev.cp, i), Row(Ev.t, i), Row(Ev.s, i), Row(Ev.k, i)), "1e-8", "1e-12"), "value of each caplet or floorlet")
Swn == LET fl == Flows(Ev.ss, Ev.ys, Ev.q, Ev.n) IN
  If(Len(Got.v) = 1 /\ RClose(Got.v[1], RMul(Ev.notional, Swaption(curve, M, IF Ev.payer THEN -1 ELSE 1, Ev.t, fl)), "1e-5", RMul("1e-7", Ev.notional)), "value of the swaption")
  \cup If(Len(Got.v) = 1 /\ Len(Got.other) = 1 /\ RClose(RSub(Got.other[1], Got.v[1]), RMul(Ev.notional, SwapValue(curve, IF Ev.payer THEN 1 ELSE -1, Ev.t, fl)), "1e-5", RMul("1e-7", Ev.notional)), "payer less receiver swaption is the swap")
  \cup (LET x == Critical(curve, M, Ev.t, fl) w == IF Ev.n = Ev.ss[Len(Ev.ss)] THEN Ev.ss ELSE Append(Ev.ss, Ev.n) IN
        If(Len(Got.crit) = Len(w) /\ \A i \in DOMAIN w : RClose(Got.crit[i], BondAt(curve, M, Ev.t, w[i], x), "1e-6", "0"), "strikes of the bonds at the critical rate"))
Bond == LET w == BondPrice(curve, M, Ev.t, Ev.s, IF RLe(Ev.t, 0) THEN Short0(curve) ELSE Ev.r) IN
  If(RClose(Got.one, w, tol, "0"), "bond price by theta") \cup If(RClose(Got.two, w, "1e-9", "0"), "bond price by the curve")
  \cup If(RClose(Got.b, B(M, Ev.t, Ev.s), "1e-9", "1e-14"), "sensitivity of the bond to the short rate")
  \cup If(RLt(0, Ev.t) \/ (RClose(Got.two, P(curve, Ev.s), "1e-9", "0") /\ RClose(Got.one, P(curve, Ev.s), tol, "0")), "bonds of today are those of the curve")
ThetaOk(x, s) == RClose(x, ThetaStep(curve, M, dt, s), "1e-7", "1e-9") \/ RClose(x, Theta(curve, M, s), "1e-7", "1e-9")
Thetas == If(Len(Got.v) = Len(Ev.ts) /\ \A i \in DOMAIN Ev.ts : ThetaOk(Got.v[i], Ev.ts[i]), "theta of each time")
\* fit errors of the pillars, in basis points; after a search the best grid is kept
Fit == If(RLe(Got.err, "0.5") /\ RLe(0, Got.err), "the theta fit gives the pillars back")
  \cup If(IF Ev.grids = <<>> THEN RClose(Got.dt, dt, "0", "0") ELSE \E i \in DOMAIN Ev.dts : RClose(Got.dt, Ev.dts[i], "0", "0"), "the step is one of those tried")
  \cup If(Got.again = "none" \/ (RClose(Got.again, Got.err, "0", "0") /\ \A i \in DOMAIN Got.tried : RLe(Got.err, RMul("1.000000001", Got.tried[i]))), "the grid of the best fit is kept")

Dt == RDiv(Ev.tau, Ev.steps)
At(i) == RMul(Dt, i)
Sim ==
  LET n == Ev.steps ns == Ev.sims q == [i \in 1..(n + 1) |-> ThetaStep(curve, M, dt, At(i - 1))] IN
  IF Len(Got.R) # n + 1 \/ Len(Got.df) # n + 1 \/ Len(Got.cc) # n + 1 \/ Len(Got.years) # n + 1 \/ Len(Got.avdf) # n + 1 \/ \E i \in 1..(n + 1) : Len(Got.R[i]) # ns \/ Len(Got.df[i]) # ns \/ Len(Got.cc[i]) # ns
  THEN {"one rate per time and simulation"}
  ELSE If(\A i \in 1..(n + 1) : RClose(Got.years[i], At(i - 1), "1e-12", "1e-14"), "times of the steps")
  \cup If(\A k \in 1..ns : RClose(Got.R[1][k], Short0(curve), "1e-9", "1e-12"), "paths start at the short rate of the curve")
  \cup If(\A i \in 1..n, k \in 1..ns : RClose(Got.R[i + 1][k], ShortNext(Ev.meth, M, Got.R[i][k], q[i], q[i + 1], Dt, Got.z[i][k]), "1e-7", "1e-9"), "every step follows the scheme")
  \cup If(\A k \in 1..ns : RClose(Got.df[1][k], 1, "0", "0") /\ \A i \in 1..n : RClose(RNeg(RLn(Got.df[i + 1][k])), Accrued(RNeg(RLn(Got.df[i][k])), Got.R[i][k], Got.R[i + 1][k], Dt), "1e-9", "1e-12"), "discount factors accumulate the rates of the path")
  \cup If(\A i \in 2..(n + 1), k \in 1..ns : RClose(Got.cc[i][k], RDiv(RNeg(RLn(Got.df[i][k])), At(i - 1)), "1e-9", "1e-12"), "zero rates of the path")
  \cup If(\A i \in 1..(n + 1) : RClose(Got.avdf[i], RDiv(RSum(Got.df[i]), ns), "1e-10", "0") /\ (i = 1 \/ RClose(Got.avcc[i], RDiv(RNeg(RLn(Got.avdf[i])), At(i - 1)), "1e-9", "1e-12")), "averages over the simulations")

Verdict ==
  IF Ev.op = "sim" /\ (~(Ev.meth \in {"euler", "rk4", "exact"}) \/ (Ev.anti /\ Ev.sims = 1)) THEN If(~Got.ok /\ Got.err = "ValueError", "an unknown method and a mirror of a single path are refused")
  ELSE IF Ev.op = "swn" /\ Ev.wrong THEN If(~Got.ok /\ Got.err = "ValueError", "coupons without times or out of order are refused")
  ELSE IF ~Got.ok THEN {"call is served"}
  ELSE CASE Ev.op = "zcb" -> Zcb [] Ev.op = "let" -> Let [] Ev.op = "swn" -> Swn [] Ev.op = "bond" -> Bond [] Ev.op = "theta" -> Thetas [] Ev.op = "fit" -> Fit [] Ev.op = "sim" -> Sim
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {} /\ curve = <<>> /\ dt = I.dt /\ tol = "2e-6"
Make == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<c, dt, tol>>
        /\ curve' = Built(Req(I.req)) /\ bad' = (IF O.ok /\ RClose(O.r0, Short0(curve'), "1e-9", "1e-12") THEN {} ELSE {"the model starts at the short rate of the curve"})
NEv == IF O.ok THEN Len(I.events) ELSE 0
Event == l \in 1..NEv /\ l' = l + 1 /\ UNCHANGED <<curve, c>> /\ bad' = bad \cup Verdict
         /\ dt' = (IF Ev.op = "fit" /\ Got.ok THEN Got.dt ELSE dt)
         /\ tol' = IF Ev.op = "fit" /\ Got.ok /\ Ev.grids # <<>> THEN "1e-4" ELSE tol
Done == /\ l = NEv + 1 /\ l' = -1 /\ UNCHANGED <<curve, c, bad, dt, tol>>
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in bad : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Make \/ Event \/ Done]_vars
=============================================================================
