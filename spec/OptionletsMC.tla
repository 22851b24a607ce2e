----------------------------- MODULE OptionletsMC -----------------------------
(* Small markets, their quotes given in every order, stripped pillar by pillar      *)
(* with every choice of smile.                                                      *)
EXTENDS Optionlets
CONSTANTS Deltas, Delays, Months, Vols, Betas, Rhos, Nus
VARIABLES m, os, done
vars == <<curve, m, os, done>>
Cal == [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {19905, 19906}]
CurveReq(cd) == [cd |-> cd, basis |-> "act/365", cal |-> Cal, interp |-> LnDF, extrap |-> "none", x |-> "days", y |-> "zero", freq |-> "continuous", colswap |-> FALSE,
                 pillars |-> <<[n |-> 200, q |-> "0.03"], [n |-> 700, q |-> "0.035"], [n |-> 1500, q |-> "0.034"]>>]
Quote(n, v) == [t |-> [k |-> "m", n |-> n, m |-> 0], vols |-> <<v, v>>, beta |-> "none"]
Tenors == {12, 18, 24}
TenorSeqs == {s \in UNION {[1..n -> Tenors] : n \in 1..3} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == \E d \in Deltas, l \in Delays, k \in Months, ts \in TenorSeqs, v \in Vols, w \in Vols :
  /\ curve = Built(CurveReq(19723 + d))
  /\ m = [cd |-> 19723 + d, settle |-> NoDate, delay |-> l, cal |-> Cal, k |-> k, shift |-> "0.01", rels |-> <<"0", "0.01">>,
          quotes |-> [i \in DOMAIN ts |-> Quote(ts[i], IF ts[i] = 18 THEN w ELSE v)]]
  /\ os = <<>> /\ done = -1
Lay == done = -1 /\ done' = 0 /\ os' = Lattice(m, curve) /\ UNCHANGED <<curve, m>>
Caps(p) == CapOf(m, curve, os, p)
NormalQuote(p) == ImpliedN(LAMBDA v : StripN(m, os, Upto(m, os, p), -1, Caps(p).ks[1], v), Caps(p).px[1])
Strip(p, beta, rho, nu) ==
  LET S == Stretch(m, os, p) b == PillarOf(m, os, p) a == IF p = 1 THEN b ELSE PillarOf(m, os, p - 1)
      v == TLCEval(IF p = 1 THEN NormalQuote(1) ELSE PillarVol(m, os, p, Caps(p)))
      at(i) == IF p = 1 THEN v ELSE Between([x |-> os[a].tau, y |-> os[a].v], [x |-> os[b].tau, y |-> v], os[i].tau)
      withv == [i \in DOMAIN os |-> IF i \notin S THEN os[i] ELSE LET w == TLCEval(at(i)) IN
                  os[i] @@ [v |-> w, vs |-> TLCEval(LnOfNormal(m, os[i], w)), alpha |-> "0", beta |-> beta, rho |-> rho, nu |-> nu]]
  IN os' = TLCEval(WithSmile(m, withv, p, beta, rho, nu))
Add == /\ done \in 0..(Len(m.quotes) - 1) /\ done' = done + 1 /\ UNCHANGED <<curve, m>>
       /\ \E beta \in Betas, rho \in Rhos, nu \in Nus : Strip(done + 1, beta, rho, nu)
Next == Lay \/ Add
Spec == Init /\ [][Next]_vars

Laid == done >= 0
All == Laid => UNION {Upto(m, os, p) : p \in DOMAIN m.quotes} = DOMAIN os
Tiles == Laid => /\ \A i \in 1..(Len(os) - 1) : os[i].e = os[i + 1].s
                 /\ \A i \in DOMAIN os : os[i].s < os[i].e /\ IsBus(Cal, os[i].s) /\ IsBus(Cal, os[i].e)
\* a quote ends with an optionlet, give or take the end of a short month, so its strip is whole
Whole == Laid => \A p \in DOMAIN m.quotes : LET e == os[PillarOf(m, os, p)].e IN e <= Caps(p).term + 3 /\ Caps(p).term <= e + 3
\* cap less floor is the swap, nothing at the forward of the quote
Parity == Laid => \A p \in DOMAIN m.quotes : LET S == Upto(m, os, p) f == Level(m, os, p) IN
  /\ \A k \in {f, "0.03"} : RClose(RSub(StripLn(m, os, S, 1, k, "0.2"), StripLn(m, os, S, -1, k, "0.2")), SumOver(S, LAMBDA i : RMul(os[i].ann, RSub(os[i].F, k))), "1e-9", "1e-13")
  /\ RClose(StripLn(m, os, S, 1, f, "0.2"), StripLn(m, os, S, -1, f, "0.2"), "1e-9", "1e-13")
\* the order of the quotes is of no account
Ordered == \A p \in 1..(Len(m.quotes) - 1) : Final(m, Sorted(m)[p]) < Final(m, Sorted(m)[p + 1])
Stripped(p) == 1..done
\* at each pillar the smile gives the level back, and the volatilities of a stretch lie between its pillars
Through == \A p \in 1..done : \A i \in Stretch(m, os, p) : RClose(AtmVol(SmileAt(m, os[i])), os[i].vs, "1e-9", 0)
Within == \A p \in 2..done : LET a == os[PillarOf(m, os, p - 1)].v b == os[PillarOf(m, os, p)].v IN
  \A i \in Stretch(m, os, p) : RLe(RSub(RMin(a, b), "1e-12"), os[i].v) /\ RLe(os[i].v, RAdd(RMax(a, b), "1e-12"))
\* the first quote at its one volatility; the rest of the price of a later quote at those of its stretch
Repriced == \A p \in 1..done : LET k == Caps(p) IN
  IF p = 1 THEN RClose(SumOver(Stretch(m, os, 1), LAMBDA i : BachValue(Opt(m, os[i], -1, k.ks[1], os[i].v, 0))), k.px[1], "1e-7", 0)
  ELSE RClose(StretchN(m, os, p, k, NormalOf(m, os[PillarOf(m, os, p - 1)], k.ks[1]), os[PillarOf(m, os, p)].v), Left(m, os, p, k, 1), "1e-6", 0)
\* reading at an optionlet gives the optionlet, and in between something in between
Reads == done = Len(m.quotes) /\ Len(os) > 1 => \A i \in 1..(Len(os) - 1) :
  /\ Read(os, os[i].s, LAMBDA j : os[j].v) = os[i].v
  /\ LET x == Read(os, (os[i].s + os[i + 1].s) \div 2, LAMBDA j : os[j].nu) IN RLe(RSub(RMin(os[i].nu, os[i + 1].nu), "1e-12"), x) /\ RLe(x, RAdd(RMax(os[i].nu, os[i + 1].nu), "1e-12"))
\* stripping a longer quote changes no smile before it
Keeps == [][done >= 1 => \A p \in 1..done : \A i \in Stretch(m, os, p) : os'[i] = os[i]]_vars
=============================================================================
