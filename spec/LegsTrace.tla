-------------------------------- MODULE LegsTrace --------------------------------
(* Recorded valuations of legs and swaps: every event is a step of Legs.              *)
EXTENDS Legs, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
vars == <<curve, book, env, c, k>>
If(ok, clause) == IF ok THEN {} ELSE {clause}
AsSet(s) == {s[i] : i \in DOMAIN s}
Req(q) == [q EXCEPT !.cal = [mask |-> q.cal.mask, hols |-> AsSet(q.cal.hols)]]
Ev == Cases[c].events[k]
L(e) == book[e.leg]
Same(a, b, l) == (~RIsNum(a) /\ ~RIsNum(b)) \/ RClose(a, b, "1e-9", RMul("1e-9", Scale(l)))
Both == [rows |-> book[1].rows \o (IF Len(book) = 2 THEN book[2].rows ELSE <<>>)]
TargetOf(e) == IF e.op = "par" THEN Outstanding(env, L(e)) ELSE IF e.swap THEN RSub(e.v, Dirty(curve, env, book[Other(e.leg)])) ELSE e.v
Coupons(l) == Cardinality({i \in 1..Len(l.rows) : l.rows[i].s # NoDate})
Kept(e) ==
  LET l == L(e) n == Len(l.rows) IN
  IF Len(e.cp) # n \/ Len(e.np) # n \/ Len(e.rate) # n THEN {"one row per period"} ELSE
  If(\A i \in 1..n : Same(e.cp[i], Coupon(l, i), l), "coupon payments of the leg") \cup If(\A i \in 1..n : Same(e.np[i], Principal(l, i), l), "notional payments of the leg")
  \cup If(\A i \in 1..n : (l.rows[i].rate = "nan" /\ e.rate[i] = "nan") \/ e.rate[i] = l.rows[i].rate, "contractual rates are kept")
  \cup If(\A i \in 1..n : ~RIsNum(Dirty(curve, env, l)) \/ (/\ Same(e.cv[i], ValueOf(curve, env, l.rows[i].cd, Coupon(l, i)), l) /\ Same(e.nv[i], ValueOf(curve, env, l.rows[i].pd, Principal(l, i)), l)), "present value of each payment")
Fails(e) ==
  CASE e.op = "set" -> {}
    [] e.op = "open" ->
         LET refused == (\E i \in DOMAIN book : ~book[i].shape) \/ (Len(book) = 2 /\ book[1].side = book[2].side) IN
         IF refused THEN If(~e.ok, "rates which fit neither one nor every period, or two legs on the same side, are refused")
         ELSE If(e.ok, "legs are built") \cup If(e.untouched, "the schedule of the caller is unchanged")
    [] ~e.ok -> {"the valuation is served"}
    [] e.op = "dirty" -> IF e.swap THEN If(Same(e.out, SwapDirty(curve, env), Both), "value of a swap is the sum of its legs") ELSE If(Same(e.out, Dirty(curve, env, L(e)), L(e)), "value of the payments which are due")
    [] e.op = "accrued" -> IF e.swap THEN If(Same(e.out, SwapAccrued(env), Both), "accrued interest of a swap is the sum of its legs") ELSE If(Same(e.out, AccruedOf(env, L(e)), L(e)), "interest accrued and not settled")
    [] e.op = "clean" -> IF e.swap THEN If(Same(e.out, SwapClean(curve, env), Both), "clean value is dirty value less accrued interest") ELSE If(Same(e.out, Clean(curve, env, L(e)), L(e)), "clean value is dirty value less accrued interest")
    [] e.op = "table" -> Kept(e)
    [] e.op = "split" -> IF ~RIsNum(Dirty(curve, env, L(e))) THEN {} ELSE
         If(Same(e.out[1], CurrentPart(curve, env, L(e)), L(e)), "value paid within a year") \cup If(Same(e.out[2], NonCurrentPart(curve, env, L(e)), L(e)), "value paid after a year")
    [] e.op = "buckets" -> LET n == Len(e.years) + 1 l == L(e) IN
         IF Len(e.c) # n \/ Len(e.p) # n \/ Len(e.t) # n THEN {"one row per bucket"} ELSE
         If(\A b \in 1..n : Same(e.c[b], BucketCoupons(env, l, e.years, b), l), "coupons of each bucket") \cup If(\A b \in 1..n : Same(e.p[b], BucketPrincipal(env, l, e.years, b), l), "notional payments of each bucket")
         \cup If(\A b \in 1..n : Same(e.t[b], RAdd(BucketCoupons(env, l, e.years, b), BucketPrincipal(env, l, e.years, b)), l), "payments of each bucket")
    [] e.op \in {"par", "target"} -> If(Solves(curve, env, L(e), TargetOf(e), e.out), IF e.op = "par" THEN "the par rate makes the leg worth its outstanding notional" ELSE "the solved rate makes the value the target")
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ curve = Built(Req(Cases[c].curve)) /\ book = Cases[c].legs /\ env = Cases[c].env
Report == \A f \in Fails(Ev) : PrintT("FAIL " \o ToJson(<<c, f>>))
Next == /\ k <= Len(Cases[c].events)
        /\ IF Ev.op = "set" THEN Set([vd |-> Ev.vd, incl |-> Ev.incl, limit |-> Ev.limit]) ELSE UNCHANGED env
        /\ Report
        /\ k' = k + 1 /\ UNCHANGED <<curve, book, c>>
        /\ (k = Len(Cases[c].events)) => PrintT("DONE " \o ToJson(<<c>>))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
