---------------------------- MODULE CosSeriesTrace ----------------------------
(* Recorded densities from characteristic functions and truncation ranges.         *)
EXTENDS CosSeries, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
Enough == RLe("0.9999998", MassOn(I.law, I.a, I.b))
Valid == RLt(0, I.dt) /\ RLe(RAdd(I.a, I.dt), I.b) /\ RLe(I.a, I.p) /\ RLe(I.p, I.b)
N == Len(O.pts)
Recover ==
  IF ~Valid THEN If(~O.ok, "a point outside the range or a step which does not fit is refused")
  ELSE IF ~O.ok THEN If(~Enough, "law is recovered")
  ELSE IF ~Enough THEN {}
  ELSE If(N >= 2 /\ Len(O.pdf) = N /\ Len(O.cdf) = N, "one density and distribution value per point")
    \cup If(\E i \in 1..N : O.pts[i] = I.p, "the point is among the points")
    \cup If(O.pts[1] = I.a /\ RLe(RSub(I.b, "1e-9"), O.pts[N]) /\ \A i \in 1..(N - 1) : RLt(O.pts[i], O.pts[i + 1]) /\ RLe(RSub(O.pts[i + 1], O.pts[i]), RMul("1.0000001", I.dt)), "points from end to end, a step apart")
    \cup If(\A i \in 1..N : RLt(I.b, O.pts[i]) \/ RClose(O.pdf[i], Density(I.law, O.pts[i]), "1e-5", "2e-6"), "density")
    \cup If(\A i \in 1..N : RLt(I.b, O.pts[i]) \/ RLe(RAbs(RSub(O.cdf[i], Distribution(I.law, O.pts[i]))), RAdd("1e-5", RMul(I.dt, I.top))), "distribution within a step")
    \cup If(\A i \in 1..N : O.pts[i] = I.p => RClose(O.F, O.cdf[i], "1e-12", "1e-14"), "distribution at the point")
    \cup If(RLe(RAbs(RSub(O.mass, 1)), RAdd("1e-5", RMul(I.dt, I.top))), "total mass")
Range ==
  IF ~O.ok THEN {"range is served"}
  ELSE LET mid == RMul(Half, RAdd(O.a, O.b)) half == RMul(Half, RSub(O.b, O.a)) IN
    IF I.model = "gbm" THEN If(RClose(half, RMul(I.L, RMul(I.sigma, RSqrt(I.tau))), "1e-12", "0"), "half width in standard deviations")
                       \cup If(RLe(RAbs(RSub(mid, RMul(I.mu, I.tau))), RMul(Half, RMul(Sq(I.sigma), I.tau))) \/ RClose(mid, RMul(I.mu, I.tau), "1e-12", "1e-12"), "range around the mean")
    ELSE If(RClose(half, RMul(I.L, RSqrt(LogVar(I))), "1e-3", "0"), "half width in standard deviations")
      \cup If(RClose(mid, RAdd(RMul(RSub(I.r, I.q), I.tau), LogMean(I)), "1e-4", RMul("1e-3", RSqrt(LogVar(I)))), "range around the mean")
Verdict == IF I.op = "recover" THEN Recover ELSE Range
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Check == l = 0 /\ l' = 1 /\ bad' = Verdict /\ UNCHANGED c
Done == /\ l = 1 /\ l' = -1 /\ UNCHANGED <<c, bad>>
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in bad : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Check \/ Done]_vars
=============================================================================
