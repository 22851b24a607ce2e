-------------------------------- MODULE Cashflows --------------------------------
(* A notional/coupon schedule object as a state machine.                        *)
(*                                                                              *)
(* rows  the accrual periods <<start, end>>; an initial notional exchange adds  *)
(*       a first row <<NoDate, NoDate>>                                         *)
(* cols  column name -> sequence of values, one per row                         *)
(* Actions: Construct, AddPayments, AddDayCounts, AddYearFracs (in any order    *)
(* and any number of times after construction).                                 *)
EXTENDS DayCount, Sequences, TLC

VARIABLES cal, conv, rows, cols

NoRow == <<NoDate, NoDate>>
NaNVal == <<"nan">>
Int2(n) == <<n, 1>>            \* every number is a rational <<num, den>>

PayDates(rs, timing, lag) ==
  [i \in 1..Len(rs) |->
     LET d == IF timing = "in_arrears" THEN rs[i][2] ELSE rs[i][1]
     IN IF d = NoDate THEN NoDate ELSE BusLag(cal, conv, d, lag)]

HasStart(x) == x \in {"start", "both"}
HasEnd(x) == x \in {"end", "both"}

\* notional in force in period i (a single notional applies to every period)
Notional(ns, i) == IF Len(ns) = 1 THEN ns[1] ELSE ns[i]

\* principal repaid when period i ends
Repaid(ns, n, exch, i) ==
  IF i = n THEN (IF HasEnd(exch) THEN Notional(ns, n) ELSE 0)
  ELSE Notional(ns, i) - Notional(ns, i + 1)

Periods(rs) == IF rs # <<>> /\ rs[1] = NoRow THEN Tail(rs) ELSE rs

\* r: the construction request
ConstructRows(r) == IF r.cls \in {"notional", "coupon"} /\ HasStart(r.exch) THEN <<NoRow>> \o r.periods ELSE r.periods
ConstructCols(r) ==
  LET n == Len(r.periods)
      st == HasStart(r.exch)
      pre(x) == IF st THEN <<x>> ELSE <<>>
      base == [notional |-> pre(Int2(0)) \o [i \in 1..n |-> Int2(Notional(r.ns, i))],
               notional_payment |-> pre(Int2(-r.ns[1])) \o [i \in 1..n |-> Int2(Repaid(r.ns, n, r.exch, i))],
               notional_payment_date |-> pre(IF r.init = NoDate THEN r.periods[1][1] ELSE r.init)
                                         \o PayDates(r.periods, r.ntiming, r.nlag)]
  IN CASE r.cls = "base" -> [x \in {} |-> <<>>]
       [] r.cls = "notional" -> base
       [] r.cls = "coupon" -> base @@ [coupon_payment_date |-> PayDates(ConstructRows(r), r.ctiming, r.clag)]

With(f, name, v) == (name :> v) @@ f

\* the last row of the schedule is the termination period
DayCounts(rs, basis) == [i \in 1..Len(rs) |-> IF rs[i] = NoRow THEN NaNVal
                           ELSE Int2(Days(basis, rs[i][1], rs[i][2], i = Len(rs)))]
YearFracs(rs, basis) == [i \in 1..Len(rs) |-> IF rs[i] = NoRow THEN NaNVal
                           ELSE YearFrac(basis, rs[i][1], rs[i][2], i = Len(rs))]

Construct(r) == /\ rows' = ConstructRows(r) /\ cols' = ConstructCols(r) /\ UNCHANGED <<cal, conv>>
AddPayments(name, timing, lag) == cols' = With(cols, name, PayDates(rows, timing, lag)) /\ UNCHANGED <<cal, conv, rows>>
AddDayCounts(basis) == cols' = With(cols, "period_daycount", DayCounts(rows, basis)) /\ UNCHANGED <<cal, conv, rows>>
AddYearFracs(basis) == cols' = With(cols, "period_yearfrac", YearFracs(rows, basis)) /\ UNCHANGED <<cal, conv, rows>>
-----------------------------------------------------------------------------
RECURSIVE SumPay(_, _)
SumPay(s, i) == IF i > Len(s) THEN 0 ELSE s[i][1] + SumPay(s, i + 1)

\* every column has one value per row
Rectangular == \A x \in DOMAIN cols : Len(cols[x]) = Len(rows)
\* principal is conserved: what is lent equals what is repaid plus what is still outstanding
Conserved(exch, ns) ==
  "notional_payment" \in DOMAIN cols =>
   LET n == Len(Periods(rows))
       total == SumPay(cols.notional_payment, 1)
   IN  total = (IF HasStart(exch) THEN -ns[1] ELSE 0) + (IF HasEnd(exch) THEN Notional(ns, 1) ELSE Notional(ns, 1) - Notional(ns, n))
PaymentsOnBusinessDays ==
  conv # "unadjusted" => \A x \in {"coupon_payment_date"} \cap DOMAIN cols : \A i \in 1..Len(rows) : cols[x][i] # NoDate => IsBus(cal, cols[x][i])
=============================================================================
