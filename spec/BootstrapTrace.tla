----------------------------- MODULE BootstrapTrace -----------------------------
(* Recorded bootstraps.                                                            *)
EXTENDS Bootstrap, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
AsSet(s) == {s[i] : i \in DOMAIN s}
Cal == [mask |-> I.cal.mask, hols |-> AsSet(I.cal.hols)]
Same(a, b) == RClose(a, b, "1e-10", "1e-12")
N == Len(I.rows)

\* deposits, from tenors or from given dates
Sd == IF I.sd # NoDate THEN I.sd ELSE SettleOn(Cal, I.cd, I.lag)
Dep(q) == LET s == IF I.dates THEN q.s ELSE QuoteStart(q, I.cd, Sd)
              e == IF I.dates THEN q.e ELSE QuoteEnd(Cal, q, s)
          IN [s |-> s, e |-> e, r |-> q.r, tau |-> YfQ(I.basis, s, e)]
Cash == LET dep == [i \in 1..N |-> Dep(I.rows[i])] all == AsSet(dep) IN
  IF ~Chainable(I.cd, all) THEN If(~O.ok, "a deposit from a date without discount factor is refused")
  ELSE IF ~O.ok THEN {"deposits are bootstrapped"}
  ELSE IF Len(O.rows) # N THEN {"one row per quote"}
  ELSE LET k == Deposits({}, I.cd, I.yb, all) IN
    UNION {LET q == dep[i] o == O.rows[i] IN
           If(o.s = q.s, "start date of the quote") \cup If(o.e = q.e, "maturity date of the quote") \cup If(Same(o.tau, q.tau), "accrual fraction of the quote")
           \cup If(Same(o.ts, YfQ(I.yb, I.cd, q.s)) /\ Same(o.te, YfQ(I.yb, I.cd, q.e)), "years to the dates of the quote")
           \cup If(Same(o.ds, RExp(DepositStartLn(k, I.cd, q))), "discount factor at the start of the deposit")
           \cup If(Same(o.de, RExp((CHOOSE p \in k : p.d = q.e).y)), "discount factor at the maturity of the deposit")
           \cup If(RClose(RDiv(o.ds, o.de), RAdd(1, RMul(q.r, q.tau)), "1e-11", "0"), "the deposit is repriced") : i \in 1..N}

\* futures on top of given points
Fut(q) == LET fr == IF I.quote = "price" THEN FutureRate(q.q) ELSE q.q IN
          [s |-> q.s, e |-> q.e, f |-> IF I.quote = "forward" THEN q.q ELSE ForwardOf(fr, q.cx), tau |-> YfQ(I.basis, q.s, q.e)]
Fu == IF ~O.ok THEN {"futures are bootstrapped"} ELSE IF Len(O.rows) # N THEN {"one row per quote"}
  ELSE LET fut == [i \in 1..N |-> Fut(I.rows[i])] all == AsSet(fut)
           base == {[d |-> NoDate, t |-> I.base[i].t, y |-> RLn(I.base[i].df)] : i \in DOMAIN I.base} IN
    UNION {LET q == fut[i] o == O.rows[i] k == Futures(base, I.cd, I.yb, EarlierFutures(q, all)) a == FutureStartLn(k, I.cd, I.yb, q) IN
           If(o.s = q.s /\ o.e = q.e, "the dates of the contract are kept") \cup If(Same(o.f, q.f), "forward rate is the futures rate less convexity")
           \cup If(Same(o.tau, q.tau), "accrual fraction of the quote") \cup If(Same(o.ts, YfQ(I.yb, I.cd, q.s)) /\ Same(o.te, YfQ(I.yb, I.cd, q.e)), "years to the dates of the quote")
           \cup If(RClose(o.ds, RExp(a), "1e-9", "1e-12"), "discount factor at the start of the contract")
           \cup If(RClose(o.de, RDiv(RExp(a), RAdd(1, RMul(q.f, q.tau))), "1e-9", "1e-12"), "discount factor at the end of the contract")
           \cup If(RClose(RDiv(o.ds, o.de), RAdd(1, RMul(q.f, q.tau)), "1e-11", "0"), "the contract is repriced") : i \in 1..N}

\* bank bill futures: the dates of every contract row
Asx == IF I.bad THEN If(~O.ok, "a contract code that is none is refused")
  ELSE IF ~O.ok THEN {"contract codes are served"} ELSE IF Len(O.rows) # N THEN {"one row per contract"}
  ELSE UNION {LET q == I.rows[i] o == O.rows[i] b == BankBill(Cal, YearOf(q.digits, q.n), DeliveryMonth(q.code)) IN
              If(o.settle = b.settle /\ o.s = b.s, "settlement on the second Friday of the delivery month") \cup If(o.expiry = b.expiry, "expiry on the business day before settlement")
              \cup If(o.e = b.e, "the bill matures three months later on a business day") \cup If(Same(o.fr, FutureRate(q.price)), "futures rate of the price") : i \in 1..N}

Fails == CASE I.op = "cash" -> Cash [] I.op = "futures" -> Fu [] I.op = "asx" -> Asx
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
