----------------------------- MODULE ScheduleTrace -----------------------------
(* Conformance: each recorded call (request + rows returned, or the fact that *)
(* it raised) is walked through Schedule's own actions and compared.          *)
EXTENDS Schedule, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
tvars == <<svars, c, verdict>>

AsSet(s) == {s[i] : i \in DOMAIN s}
Req(i) == [i EXCEPT !.cal = [mask |-> i.cal.mask, hols |-> AsSet(i.cal.hols)]]

TraceInit == /\ c \in 1..Len(Cases) /\ q = Req(Cases[c].inp) /\ InitVars /\ verdict = "pending"

\* rows recorded from the implementation: <<start, end>> day numbers
Rows == Cases[c].out.rows
SpecRows == [i \in 1..(Len(out.b) - 1) |-> <<out.b[i], out.b[i + 1]>>]

Fails ==
  IF ~out.ok THEN (IF Cases[c].out.ok THEN {"rejects an impossible request"} ELSE {})
  ELSE IF ~Cases[c].out.ok THEN {"accepts a valid request"}
  ELSE LET r == Rows n == Len(Rows) IN
       IF n = 0 THEN {"at least one period"} ELSE
         (IF r[1][1] # S THEN {"starts on the effective date"} ELSE {})
    \cup (IF r[n][2] # E THEN {"ends on the termination date"} ELSE {})
    \cup (IF \E i \in 1..(n - 1) : r[i][2] # r[i + 1][1] THEN {"contiguous periods"} ELSE {})
    \cup (IF NonDegenerate /\ \E i \in 1..n : r[i][1] >= r[i][2] THEN {"positive length"} ELSE {})
    \cup (IF HasF /\ q.unit # "z" /\ NonDegenerate /\ q.fpe # q.e /\ ~(HasL /\ q.lps = q.s) /\ r[1][2] # F THEN {"first period end kept"} ELSE {})
    \cup (IF HasL /\ q.unit # "z" /\ NonDegenerate /\ q.lps # q.s /\ ~(HasF /\ q.fpe = q.e) /\ r[n][1] # L THEN {"last period start kept"} ELSE {})
    \cup (IF r # SpecRows THEN {"dates are those of the specification"} ELSE {})

Compare == /\ ph = "done" /\ verdict = "pending"
           /\ verdict' = "checked"
           /\ PrintT("DONE " \o ToJson(<<c>>))
           /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
           /\ UNCHANGED <<svars, c>>

TraceNext == \/ Next /\ UNCHANGED <<c, verdict>>
             \/ Compare
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
