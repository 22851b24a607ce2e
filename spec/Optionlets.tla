------------------------------ MODULE Optionlets ------------------------------
(* Caps and floors as strips of optionlets, and the stripping of their quotes     *)
(* into a term structure of volatility smiles.                                    *)
(*                                                                                *)
(* A market m: [cd, settle, delay, cal, k, shift, rels, quotes].  Its optionlets   *)
(* run over periods of k months, the first of which starts k months after          *)
(* settlement.  A quote [t, vols, beta] says at which log-normal volatilities the  *)
(* cap or floor of tenor t trades, one for each distance rels[j] of the strike     *)
(* from the forward (rels[1] = 0: at the money).                                   *)
(*                                                                                *)
(* The surface is a state: the optionlets, of which those up to some pillar carry  *)
(* a smile.  Strip adds the smiles of the next quote and changes none before.      *)
EXTENDS Curve, Sabr

Settle(m) == IF m.settle # NoDate THEN m.settle ELSE BusAdd(m.cal, NextBus(m.cal, m.cd), m.delay)
First(m) == AddMonths(Settle(m), m.k)
Final(m, q) == Reach(q.t, Settle(m))
Adj(m, z) == NextBus(m.cal, z)
\* quotes in order of termination
RankOf(m, i) == Cardinality({j \in DOMAIN m.quotes : Final(m, m.quotes[j]) < Final(m, m.quotes[i])}) + 1
Sorted(m) == [p \in DOMAIN m.quotes |-> m.quotes[CHOOSE i \in DOMAIN m.quotes : RankOf(m, i) = p]]
Longest(m) == Sorted(m)[Len(m.quotes)]

\* boundaries of the periods: whole periods back from the last termination date, moved to business days
Bounds(m) ==
  LET s == First(m) e == Final(m, Longest(m))
      inner == {Adj(m, AddMonths(e, -(j * m.k))) : j \in 1..(((e - s) \div (28 * m.k)) + 1)}
  IN {Adj(m, s), Adj(m, e)} \cup {d \in inner : Adj(m, s) < d /\ d < Adj(m, e)}
InOrder(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y <= x}) = i]

\* an optionlet on the simple forward rate of its period, paid at its end
Optlet(m, cv, s, e) ==
  LET yf == Yf(cv.basis, s, e, FALSE) df == DFOn(cv, e) IN
  [s |-> s, e |-> e, pay |-> e, yf |-> yf, df |-> df, ann |-> RMul(yf, df), tau |-> Yf(cv.basis, cv.cd, s, FALSE),
   F |-> FwdOn(cv, "simple", s, e, yf)]
Lattice(m, cv) == LET b == InOrder(Bounds(m)) IN [i \in 1..(Len(b) - 1) |-> TLCEval(Optlet(m, cv, b[i], b[i + 1]))]

\* the optionlets of a quote, and those it has beyond the quote before
Upto(m, os, p) == {i \in DOMAIN os : os[i].e <= Adj(m, Final(m, Sorted(m)[p]))}
Stretch(m, os, p) == IF p = 1 THEN Upto(m, os, 1) ELSE Upto(m, os, p) \ Upto(m, os, p - 1)
SumOver(S, V(_)) == LET o == InOrder(S) IN RSum([i \in DOMAIN o |-> V(o[i])])
PillarOf(m, os, p) == MaxOf(Stretch(m, os, p))

\* the quote as a strip
Level(m, os, p) == LET S == Upto(m, os, p) IN RDiv(SumOver(S, LAMBDA i : RMul(os[i].F, os[i].ann)), SumOver(S, LAMBDA i : os[i].ann))
Above(m, j) == IF RLt(0, m.rels[j]) THEN 1 ELSE -1
Opt(m, o, cp, k, v, sh) == [F |-> o.F, tau |-> o.tau, cp |-> cp, K |-> k, v |-> v, sh |-> sh, ann |-> o.ann]
StripLn(m, os, S, cp, k, v) == SumOver(S, LAMBDA i : B76Value(Opt(m, os[i], cp, k, v, m.shift)))
StripN(m, os, S, cp, k, v) == SumOver(S, LAMBDA i : BachValue(Opt(m, os[i], cp, k, v, 0)))
CapOf(m, cv, os, p) ==
  LET q == Sorted(m)[p] f == Level(m, os, p) S == Upto(m, os, p)
      eff == Adj(m, First(m)) term == Adj(m, Final(m, q)) fix == Adj(m, AddMonths(Final(m, q), -m.k))
  IN [t |-> q.t, settle |-> Settle(m), eff |-> eff, term |-> term, fix |-> fix,
      years |-> Yf(cv.basis, eff, term, FALSE), fixyears |-> Yf(cv.basis, cv.cd, fix, FALSE), F |-> f,
      ks |-> [j \in DOMAIN m.rels |-> RAdd(f, m.rels[j])], cps |-> [j \in DOMAIN m.rels |-> Above(m, j)], vols |-> q.vols,
      px |-> [j \in DOMAIN m.rels |-> StripLn(m, os, S, Above(m, j), RAdd(f, m.rels[j]), q.vols[j])]]

-----------------------------------------------------------------------------
\* the smile of an optionlet o that carries [v, vs, alpha, beta, rho, nu]: normal and log-normal volatility at the money, SABR parameters
SmileAt(m, o) == [tau |-> o.tau, f |-> RAdd(o.F, m.shift), alpha |-> o.alpha, beta |-> o.beta, rho |-> o.rho, nu |-> o.nu]
SmileVol(m, o, k) == SabrVol(SmileAt(m, o), RAdd(k, m.shift))
SmileValue(m, o, cp, k) == B76Value(Opt(m, o, cp, k, SmileVol(m, o, k), m.shift))
\* what the optionlets of the quotes before are worth at a strike of quote p
Worth(m, os, S, cp, k) == IF S = {} THEN "0" ELSE SumOver(S, LAMBDA i : SmileValue(m, os[i], cp, k))
Between(a, b, x) == LET w == RDiv(RSub(x, a.x), RSub(b.x, a.x)) IN RAdd(a.y, RMul(w, RSub(b.y, a.y)))
Line(os, a, b, i, Y(_)) == Between([x |-> os[a].tau, y |-> Y(a)], [x |-> os[b].tau, y |-> Y(b)], os[i].tau)

\* stripping quote p (cap c) leaves these conditions on the optionlets of its stretch
FlatFirst(m, os, S, Y(_)) == \A i, j \in S : RClose(Y(i), Y(j), "1e-12", 0)
Straight(os, a, b, S, Y(_), tol) == \A i \in S : RClose(Y(i), Line(os, a, b, i, Y), tol, tol)
\* left of the price when the optionlets before are valued on their smiles
Left(m, os, p, c, j) == RSub(c.px[j], Worth(m, os, DOMAIN os \cap 1..(PillarOf(m, os, p - 1)), c.cps[j], c.ks[j]))
\* the stretch at normal volatilities which run from that of the last smile before, at the strike, to v at the pillar
NormalAt(m, o, k, v) == RClose(BachValue(Opt(m, o, 1, k, v, 0)), SmileValue(m, o, 1, k), "3e-5", 0)
StretchN(m, os, p, c, v0, v) ==
  LET a == PillarOf(m, os, p - 1) b == PillarOf(m, os, p) IN
  SumOver(Stretch(m, os, p), LAMBDA i : BachValue(Opt(m, os[i], c.cps[1], c.ks[1],
     Between([x |-> os[a].tau, y |-> v0], [x |-> os[b].tau, y |-> v], os[i].tau), 0)))
\* normal volatility (increasing value) by bisection
RECURSIVE Bisect(_, _, _, _)
Bisect(V(_), x, lohi, n) == IF n = 0 THEN RMul(Half, RAdd(lohi[1], lohi[2]))
  ELSE LET mid == TLCEval(RMul(Half, RAdd(lohi[1], lohi[2]))) IN Bisect(V, x, IF RLt(V(mid), x) THEN <<mid, lohi[2]>> ELSE <<lohi[1], mid>>, n - 1)
ImpliedN(V(_), x) == Bisect(V, x, <<"0.00001", "1">>, 45)
NormalOf(m, o, k) == ImpliedN(LAMBDA v : BachValue(Opt(m, o, 1, k, v, 0)), SmileValue(m, o, 1, k))
LnOfNormal(m, o, v) == Bisect(LAMBDA w : B76Value(Opt(m, o, 1, o.F, w, m.shift)), BachValue(Opt(m, o, 1, o.F, v, 0)), <<"0.001", "10">>, 45)
PillarVol(m, os, p, c) ==
  LET v0 == TLCEval(NormalOf(m, os[PillarOf(m, os, p - 1)], c.ks[1])) IN ImpliedN(LAMBDA v : StretchN(m, os, p, c, v0, v), Left(m, os, p, c, 1))

\* errors of the quotes, relative to what was left of their prices
PriorWorth(m, os, p, c, j) == IF p = 1 THEN c.px[j] ELSE Left(m, os, p, c, j)
QuoteErr(m, os, p, c, j) == LET t == PriorWorth(m, os, p, c, j) IN RDiv(RSub(t, Worth(m, os, Stretch(m, os, p), c.cps[j], c.ks[j])), t)
FitErr(m, os, p, c) == RDiv(RSum([j \in DOMAIN m.rels |-> Sq(QuoteErr(m, os, p, c, j))]), Len(m.rels))
\* the same optionlets with the smiles of the stretch at another choice of the pillar's parameters
WithSmile(m, os, p, beta, rho, nu) ==
  LET S == Stretch(m, os, p) b == PillarOf(m, os, p) a == IF p = 1 THEN b ELSE PillarOf(m, os, p - 1)
      at(i, old, new) == IF p = 1 THEN new ELSE Between([x |-> os[a].tau, y |-> old], [x |-> os[b].tau, y |-> new], os[i].tau)
  IN [i \in DOMAIN os |-> IF i \notin S THEN os[i]
        ELSE LET o == [os[i] EXCEPT !.beta = at(i, os[a].beta, beta), !.rho = at(i, os[a].rho, rho), !.nu = at(i, os[a].nu, nu)]
             IN TLCEval([o EXCEPT !.alpha = SolveAlpha([SmileAt(m, o) EXCEPT !.alpha = "1"], o.vs)])]

-----------------------------------------------------------------------------
\* reading the surface between its optionlets, linear in the date
Around(os, d) == LET s == {i \in DOMAIN os : os[i].s <= d} IN Min2(MaxOf(s), Len(os) - 1)
Read(os, d, Y(_)) ==
  IF \E i \in DOMAIN os : os[i].s = d THEN Y(CHOOSE i \in DOMAIN os : os[i].s = d)
  ELSE LET i == Around(os, d) IN Between([x |-> R(os[i].s), y |-> Y(i)], [x |-> R(os[i + 1].s), y |-> Y(i + 1)], R(d))
=============================================================================
