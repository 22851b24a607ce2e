------------------------------ MODULE DayCountTrace ------------------------------
(* Recorded vector / scalar day-count calls against DayCount.                   *)
EXTENDS DayCount, Real64, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
Init == c \in 1..Len(Cases) /\ verdict = "pending"

I == Cases[c].inp
O == Cases[c].out
N == Max2(Len(I.s), Len(I.e))
SD(i) == IF Len(I.s) = 1 THEN I.s[1] ELSE I.s[i]
ED(i) == IF Len(I.e) = 1 THEN I.e[1] ELSE I.e[i]
\* by default only the last date of the call is taken as the termination date
Term(i) == CASE I.term = <<"default">> -> i = N
             [] I.term = <<"true">> -> TRUE
             [] I.term = <<"false">> -> FALSE
             [] OTHER -> I.term[i] = "true"
Ordered == \A i \in 1..N : SD(i) <= ED(i)
Fails ==
  IF ~Ordered THEN IF O.ok THEN {"rejects reversed dates"} ELSE {}
  ELSE IF ~O.ok THEN {"accepts ordered dates"}
  ELSE (IF O.scalar # (N = 1) THEN {"scalar in, scalar out"} ELSE {})
    \cup (IF Len(O.days) # N \/ Len(O.years) # N THEN {"one value per date pair"}
          ELSE (IF \E i \in 1..N : ~RClose(O.days[i], Days(I.basis, SD(i), ED(i), Term(i)), "0", "1e-9") THEN {"day count"} ELSE {})
          \cup (IF \E i \in 1..N : LET y == YearFrac(I.basis, SD(i), ED(i), Term(i)) IN ~RClose(O.years[i], RRatio(y[1], y[2]), "1e-12", "1e-12")
                THEN {"year fraction"} ELSE {}))
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
