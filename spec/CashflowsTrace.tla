------------------------------ MODULE CashflowsTrace ------------------------------
(* Recorded histories of schedule objects (construction followed by column       *)
(* operations in any order): after every call the complete table is compared.    *)
EXTENDS Cashflows, Real64, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, phase
vars == <<cal, conv, rows, cols, c, l, phase>>
AsSet(s) == {s[i] : i \in DOMAIN s}
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ phase = "act" /\ rows = <<>> /\ cols = [x \in {} |-> <<>>]
             /\ cal = [mask |-> Cases[c].cal.mask, hols |-> AsSet(Cases[c].cal.hols)] /\ conv = Cases[c].conv
Ev == Cases[c].events[l]

DateCol(x) == x \notin {"notional", "notional_payment", "period_daycount", "period_yearfrac"}
SameVal(x, v, w) == IF DateCol(x) THEN v = w
                    ELSE IF v = NaNVal THEN RIsNaN(w) ELSE RClose(w, RRatio(v[1], v[2]), "1e-12", "1e-12")
SameCol(x, v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : SameVal(x, v[i], w[i])

\* the accrual columns stand after the period, day counts first, whatever they were added after
At(x) == CHOOSE i \in DOMAIN Ev.names : Ev.names[i] = x
Has(x) == \E i \in DOMAIN Ev.names : Ev.names[i] = x
Placed == /\ Has("period_daycount") => At("period_daycount") = At("period_end") + 1
          /\ Has("period_yearfrac") => At("period_yearfrac") = At(IF Has("period_daycount") THEN "period_daycount" ELSE "period_end") + 1
Fails == IF ~Ev.ok THEN {Ev.op \o " succeeds"}
         ELSE (IF Ev.rows # rows THEN {"periods of the table"} ELSE {})
         \cup {"column " \o x : x \in {y \in DOMAIN cols : y \notin DOMAIN Ev.cols \/ ~SameCol(y, cols[y], Ev.cols[y])}}
         \cup (IF ~Placed THEN {"place of the accrual columns"} ELSE {})
         \cup (IF DOMAIN Ev.cols \ DOMAIN cols # {} THEN {"no unexpected column"} ELSE {})
         \cup (IF Ev.op = "construct" /\ ~Conserved(Ev.req.exch, Ev.req.ns) THEN {"spec: principal conserved"} ELSE {})
         \cup (IF ~Rectangular THEN {"spec: rectangular"} ELSE {})

Act == /\ phase = "act" /\ l <= Len(Cases[c].events) /\ phase' = "compare" /\ UNCHANGED <<c, l>>
       /\ CASE Ev.op = "construct" -> Construct(Ev.req)
            [] Ev.op = "payments" -> AddPayments(Ev.name, Ev.timing, Ev.lag)
            [] Ev.op = "daycounts" -> AddDayCounts(Ev.basis)
            [] Ev.op = "yearfracs" -> AddYearFracs(Ev.basis)
            [] Ev.op = "rebuild" -> rows' = Periods(rows) /\ cols' = [x \in {} |-> <<>>] /\ UNCHANGED <<cal, conv>>
Compare == /\ phase = "compare" /\ phase' = "act" /\ l' = l + 1 /\ UNCHANGED <<c, cal, conv, rows, cols>>
           /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
           /\ l = Len(Cases[c].events) => PrintT("DONE " \o ToJson(<<c>>))
TraceNext == Act \/ Compare
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
