-------------------------------- MODULE FxDates --------------------------------
(* Spot dates, delivery dates and market lags of FX and IR markets.              *)
EXTENDS Tenor, FiniteSets

T1Pairs == {"usdcad", "cadusd", "usdphp", "phpusd", "usdrub", "rubusd", "usdtry", "tryusd"}
SpotLag(pair) == IF pair \in T1Pairs THEN 1 ELSE 2
SettlementLag(ccy) == IF ccy = "gbp" THEN 0 ELSE 2

\* following-rolled, then k business days
Workday(cal, z, k) == BusAdd(cal, NextBus(cal, z), k)

\* what the caller may leave out of {curve date, spot lag, spot date}; NoDate / -1 = not given
Resolvable(r) == r.cd # NoDate \/ r.sd # NoDate
Resolve(cal, r) ==
  LET lag == IF r.off >= 0 THEN r.off
             ELSE IF r.cd # NoDate /\ r.sd # NoDate THEN BusDaysBetween(cal, r.cd, r.sd)
             ELSE SpotLag(r.pair)
      sd == IF r.sd # NoDate THEN r.sd ELSE Workday(cal, r.cd, lag)
      cd == IF r.cd # NoDate THEN r.cd ELSE BusAdd(cal, PrevBus(cal, r.sd), -lag)
  IN  [cd |-> cd, off |-> lag, sd |-> sd,
       consistent |-> (r.off >= 0 /\ r.cd # NoDate /\ r.sd # NoDate) => BusDaysBetween(cal, r.cd, r.sd) = r.off]

\* one quote row: the delivery date wins, else it settles spot-lag days after the fixing/expiry date,
\* else the tenor gives the fixing date (from the curve date) and the delivery date
QuoteDates(cal, cd, lag, row) ==
  IF row.del # NoDate THEN [fix |-> row.fix, del |-> row.del]
  ELSE IF row.fix # NoDate THEN [fix |-> row.fix, del |-> Workday(cal, row.fix, lag)]
  ELSE LET z == Reach(row.t, cd) IN [fix |-> NextBus(cal, z), del |-> Workday(cal, z, lag)]
=============================================================================
