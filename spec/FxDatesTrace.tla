------------------------------ MODULE FxDatesTrace ------------------------------
EXTENDS FxDates, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
Init == c \in 1..Len(Cases) /\ verdict = "pending"
AsSet(s) == {s[i] : i \in DOMAIN s}
I == Cases[c].inp
O == Cases[c].out
Cal == [mask |-> I.cal.mask, hols |-> AsSet(I.cal.hols)]

ResolveFails ==
  LET r == Resolve(Cal, I) IN
  IF ~Resolvable(I) THEN {}
  ELSE IF ~r.consistent THEN (IF O.ok THEN {"inconsistent curve date, spot date and lag are refused"} ELSE {})
  ELSE IF ~O.ok THEN {"spot date resolution succeeds"}
  ELSE (IF O.cd # r.cd THEN {"curve date"} ELSE {}) \cup (IF O.off # r.off THEN {"spot lag"} ELSE {}) \cup (IF O.sd # r.sd THEN {"spot date"} ELSE {})

\* every quote appears once, in delivery order, with its dates
RowsFails ==
  IF ~O.ok THEN {"quote dates are resolved"}
  ELSE (IF Len(O.rows) # Len(I.rows) \/ {O.rows[i].id : i \in DOMAIN O.rows} # {I.rows[i].id : i \in DOMAIN I.rows}
        THEN {"each quote is kept exactly once"}
        ELSE (IF \E i \in DOMAIN O.rows : \E j \in DOMAIN I.rows : I.rows[j].id = O.rows[i].id /\
                   O.rows[i].del # QuoteDates(Cal, I.cd, I.off, I.rows[j]).del THEN {"delivery date of a quote"} ELSE {})
        \cup (IF \E i \in DOMAIN O.rows : \E j \in DOMAIN I.rows : I.rows[j].id = O.rows[i].id /\
                   O.rows[i].fix # QuoteDates(Cal, I.cd, I.off, I.rows[j]).fix THEN {"fixing or expiry date of a quote"} ELSE {})
        \cup (IF \E i \in DOMAIN O.rows : \E j \in DOMAIN I.rows : I.rows[j].id = O.rows[i].id /\ O.rows[i].val # I.rows[j].val THEN {"quoted value stays with its dates"} ELSE {})
        \cup (IF \E i \in 1..(Len(O.rows) - 1) : O.rows[i].del > O.rows[i + 1].del THEN {"quotes are in delivery order"} ELSE {}))

WorkdayFails == IF ~O.ok THEN {"workday succeeds"}
                ELSE IF O.days # [i \in 1..Len(I.days) |-> Workday(Cal, I.days[i], I.off)] THEN {"business day shift"} ELSE {}
LagFails == IF O.lag # (IF I.what = "spot" THEN SpotLag(I.ccy) ELSE SettlementLag(I.ccy)) THEN {"market lag"} ELSE {}

Fails == CASE I.op = "resolve" -> ResolveFails [] I.op = "rows" -> RowsFails [] I.op = "workday" -> WorkdayFails [] I.op = "lag" -> LagFails
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
