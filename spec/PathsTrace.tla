------------------------------- MODULE PathsTrace -------------------------------
(* Recorded simulations.                                                           *)
EXTENDS Paths, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
I == Cases[c].inp
O == Cases[c].out
If(ok, clause) == IF ok THEN {} ELSE {clause}
Shape3(x, a, b, n) == Len(x) = a /\ \A i \in 1..a : Len(x[i]) = b /\ \A j \in 1..b : Len(x[i][j]) = n
Same3(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Len(x[i]) = Len(y[i]) /\ \A j \in DOMAIN x[i] : Len(x[i][j]) = Len(y[i][j]) /\ \A k \in DOMAIN x[i][j] : RClose(x[i][j][k], y[i][j][k], "0", "0")

\* draws: O.z[step][variable][simulation]; O.again the same call repeated; summary statistics of a large call
Draws == IF ~Shape3(O.z, I.steps, I.nvars, I.sims) THEN {"one draw per step, variable and simulation"}
  ELSE If(\A i \in 1..I.steps, j \in 1..I.nvars, k \in 1..I.sims : RIsNum(O.z[i][j][k]), "draws are numbers")
  \cup If(~I.anti \/ \A i \in 1..I.steps, j \in 1..I.nvars : Mirrored(O.z[i][j]), "antithetic draws mirror their neighbour")
  \cup If(Same3(O.z, O.again), "the same seed gives the same draws")
  \cup If(~Same3(O.z, O.other), "another seed gives other draws")
\* no draw is reused: O.repeats counts equal absolute values among the draws that should be independent
  \cup If(O.repeats = 0, "independent draws differ")
Moments == If(PlausibleMean(O.mean, I.n), "draws have mean zero") \cup If(PlausibleVar(O.var, I.n), "draws have variance one")
  \cup If(\A i \in DOMAIN O.cross : PlausibleMean(O.cross[i], I.n), "draws of different variables, steps and simulations are uncorrelated")
  \cup If(RClose(O.frac, "0.6826894921370859", "0", RDiv(4, RSqrt(R(I.n)))), "draws are normally distributed")

\* correlated variates: rows 1..d of I.z are the unit vectors
D == Len(I.C)
Mat(k) == O.y[k]          \* image of unit vector k = column k of the factor
CorrRows == IF Len(O.y) # Len(I.z) THEN {"one variate per draw"}
  ELSE If(\A i \in 1..D, j \in 1..D : RClose(RSum([k \in 1..D |-> RMul(Mat(k)[i], Mat(k)[j])]), I.C[i][j], "1e-10", "1e-12"), "the variates have the requested correlation matrix")
  \cup If(\A r \in 1..Len(I.z), i \in 1..D : RClose(O.y[r][i], RSum([k \in 1..D |-> RMul(Mat(k)[i], I.z[r][k])]), "1e-10", "1e-12"), "every draw is transformed alike")

\* GBM: x[step][var][sim]
Gbm == LET n == Len(I.dt) nv == Len(I.x0) ns == Len(I.z[1][1]) IN
  IF ~Shape3(O.x, n + 1, nv, ns) THEN {"one price per time, underlying and simulation"}
  ELSE If(\A j \in 1..nv, k \in 1..ns : RClose(O.x[1][j][k], I.x0[j], "1e-12", "0"), "paths start at the initial price")
  \cup If(\A i \in 1..n, j \in 1..nv, k \in 1..ns : RClose(O.x[i+1][j][k], GbmNext(O.x[i][j][k], I.mu[i][j], I.s[i][j], I.dt[i], I.z[i][j][k]), "1e-10", "0"), "every step follows geometric Brownian motion with its own parameters")

\* Heston: x[step][1 spot, 2 variance][sim]
HStep(i, k) == LET dt == RDiv(I.tau, Len(I.z)) S == O.x[i][1][k] V == O.x[i][2][k] S1 == O.x[i+1][1][k] V1 == O.x[i+1][2][k] z1 == I.z[i][1][k] z2 == I.z[i][2][k] IN
  IF I.meth = "qe"
  THEN LET psi == Psi(I.h, V, dt) m == VMean(I.h, V, dt) IN
       /\ RLe(0, V1)
       /\ \/ RLe(psi, "1.5000001") /\ RClose(V1, VQuad(m, psi, z2), "1e-7", "1e-14")
          \/ RLt("1.4999999", psi) /\ RClose(V1, VExp(m, psi, z2), "1e-7", "1e-12")
       /\ RClose(S1, QeSpot(I.h, S, V, V1, dt, z1), "1e-9", "0")
  ELSE LET F == Floor(I.meth, V) W == EulerV(I.h, F, dt, z1, z2) IN
       /\ RClose(V1, W, "1e-9", "1e-12") \/ RClose(V1, Floor(I.meth, W), "1e-9", "1e-12")
       /\ RClose(S1, EulerS(I.h, S, F, dt, z1), "1e-9", "1e-12")
Heston == LET n == Len(I.z) ns == Len(I.z[1][1]) IN
  IF ~Shape3(O.x, n + 1, 2, ns) THEN {"one spot and variance per time and simulation"}
  ELSE If(\A k \in 1..ns : RClose(O.x[1][1][k], I.S0, "1e-12", "0") /\ RClose(O.x[1][2][k], I.V0, "1e-12", "0"), "paths start at the initial spot and variance")
  \cup If(\A i \in 1..n, k \in 1..ns : HStep(i, k), "every step follows the scheme")

\* Clewlow-Strickland: runs r with their own parameters; x[day][sim]; the shocks behind them are common
Run(r) == I.runs[r]
Dev(r, k, j) == RSub(RLn(O.x[r][k+1][j]), RLn(Run(r).f[k+1]))
Shock(r, k, j) == CsShock(Dev(r, k, j), Dev(r, k + 1, j), Run(r).a, Run(r).s, I.m, R(k))
ZeroVol(r) == RClose(Run(r).s, "0", "0", "0")
Cs == LET NR == Len(I.runs) Days == 0..(I.T - 1) Sims == 1..I.sims IN
  IF \E r \in 1..NR : Len(O.x[r]) # I.T + 1 \/ \E k \in 1..(I.T+1) : Len(O.x[r][k]) # I.sims THEN {"one spot price per day and simulation"}
  ELSE If(\A r \in 1..NR, j \in Sims : RClose(O.x[r][1][j], Run(r).f[1], "1e-12", "0"), "paths start on the forward curve")
  \cup If(\A r \in 1..NR : ZeroVol(r) => \A k \in 1..(I.T+1), j \in Sims : RClose(O.x[r][k][j], Run(r).f[k], "1e-9", "0"), "without volatility the spot is the forward curve")
  \cup If(\A r \in 1..NR : ~ZeroVol(r) => \A k \in Days, j \in Sims : RLt(RAbs(Shock(r, k, j)), 8), "shocks are standard normal")
  \cup If(\A r \in 1..NR : ~ZeroVol(r) => LET x == [q \in 1..(I.T * I.sims) |-> Shock(r, (q-1) \div I.sims, ((q-1) % I.sims) + 1)] n == I.T * I.sims IN
        /\ PlausibleMean(RDiv(RSum(x), n), n) /\ PlausibleVar(RDiv(RSum([q \in 1..n |-> Sq(x[q])]), n), n), "shocks are standard normal")
  \cup If(\A r \in 1..NR : \A k \in Days, j \in Sims : ~ZeroVol(r) /\ ~ZeroVol(1) => RClose(Shock(r, k, j), Shock(1, k, j), "1e-6", "1e-6"), "the spot reverts to the forward curve with the given speed and volatility")
  \cup If(\A r \in 1..NR, i \in Sims, j \in Sims : (i < j /\ ~ZeroVol(r)) => \E k \in 1..(I.T+1) : ~RClose(O.x[r][k][i], O.x[r][k][j], "1e-12", "0"), "no two simulations are the same")

Fails == IF I.op = "refuse" THEN If(~O.ok, "an impossible number of draws is refused")
  ELSE IF ~O.ok THEN {"call is served"}
  ELSE CASE I.op = "draws" -> Draws [] I.op = "moments" -> Moments [] I.op = "corr" -> CorrRows [] I.op = "gbm" -> Gbm
         [] I.op = "heston" -> Heston [] I.op = "cs" -> Cs
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = "checked" /\ UNCHANGED c
        /\ PrintT("DONE " \o ToJson(<<c>>))
        /\ \A f \in Fails : PrintT("FAIL " \o ToJson(<<c, f>>))
TraceSpec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
