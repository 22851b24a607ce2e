------------------------------ MODULE SabrTrace ------------------------------
(* Recorded SABR volatilities, levels and fits.                                    *)
EXTENDS Sabr, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
Smile(r) == [tau |-> r.tau, f |-> RAdd(r.F, I.shift), alpha |-> r.alpha, beta |-> r.beta, rho |-> r.rho, nu |-> r.nu]
Shifted(k) == RAdd(k, I.shift)
\* rows of I: one smile per row, or one smile for all strikes
SmileOf(i) == Smile(I.smiles[IF Len(I.smiles) = 1 THEN 1 ELSE i])
StrikeOf(i) == Shifted(I.ks[IF Len(I.ks) = 1 THEN 1 ELSE i])
Rows == IF Len(I.smiles) > Len(I.ks) THEN Len(I.smiles) ELSE Len(I.ks)
NearVol(m, k, v) ==
  LET slack == IF RLt(RAbs(RLn(RDiv(m.f, k))), "1e-6") THEN RMul("2e-6", RAdd(1, RDiv(RMul(m.nu, Back(m, k)), m.alpha))) ELSE "0"
  IN RClose(v, SabrVol(m, k), RAdd("1e-7", slack), "0")
Vols == IF ~O.ok THEN {"volatilities are served"}
  ELSE If(O.scalar = (Rows = 1), "a number for one strike, an array for more")
  \cup If(Len(O.v) = Rows /\ \A i \in 1..Rows : NearVol(SmileOf(i), StrikeOf(i), O.v[i]), "volatility of each smile at each strike")

Alpha == LET m == [Smile(I) EXCEPT !.alpha = O.alpha] IN
  IF ~O.ok THEN {"level is served"}
  ELSE If(RClose(AtmVol(m), I.v, "1e-9", "0"), "the smile passes through the volatility at the money")
  \cup If(~Tame(Smile(I), I.v) \/ RClose(O.alpha, SolveAlpha(Smile(I), I.v), "1e-8", "0"), "level of the smile")

Points == [i \in DOMAIN I.ks |-> [k |-> Shifted(I.ks[i]), v |-> I.vols[i]]]
Fitted == [tau |-> I.tau, f |-> RAdd(I.F, I.shift), alpha |-> O.alpha, beta |-> O.beta, rho |-> O.rho, nu |-> O.nu]
Start == LET m == [Fitted EXCEPT !.beta = IF I.beta = "none" THEN "0" ELSE I.beta, !.rho = "0", !.nu = "0.1"] IN [m EXCEPT !.alpha = SolveAlpha(m, I.atm)]
Fit ==
  IF I.atms # 1 THEN If(~O.ok /\ O.err = "ValueError", "a smile without one volatility at the money is refused")
  \* a smile which is no SABR smile may be given up
  ELSE IF ~O.ok THEN If(~I.exact /\ O.err = "ValueError", "smile is fitted")
  ELSE If((IF I.beta = "none" THEN RLe(0, O.beta) /\ RLe(O.beta, 1) ELSE O.beta = I.beta) /\ RLe(RAbs(O.rho), 1) /\ RLt(0, O.nu) /\ RLt(0, O.alpha), "parameters are admissible")
  \cup If(RClose(AtmVol(Fitted), I.atm, "1e-9", "0"), "the smile passes through the volatility at the money")
  \cup If(RClose(O.sse, SmileErrors(Fitted, Points), "1e-6", "1e-14"), "sum of squared errors")
  \cup If(RLe(O.sse, RAdd("1e-12", SmileErrors(Start, Points))), "fit no worse than the start")
  \cup If(~I.exact \/ RLe(O.sse, IF I.beta = "none" THEN "1e-3" ELSE "4e-4"), "a SABR smile is found again")
  \cup If(O.untouched, "the quotes are left as they were")

Verdict == CASE I.op = "vol" -> Vols [] I.op = "alpha" -> Alpha [] I.op = "fit" -> Fit
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Check == l = 0 /\ l' = 1 /\ bad' = Verdict /\ UNCHANGED c
Done == /\ l = 1 /\ l' = -1 /\ UNCHANGED <<c, bad>>
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in bad : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Check \/ Done]_vars
=============================================================================
