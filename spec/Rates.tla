--------------------------------- MODULE Rates ---------------------------------
(* Compounding conventions: a zero rate r over t years and the discount factor. *)
EXTENDS Real64, TLC
Freqs == {"simple", "continuous", "daily", "weekly", "monthly", "quarterly", "semiannual", "annual"}
PerYear(f) == CASE f = "daily" -> 365 [] f = "weekly" -> 52 [] f = "monthly" -> 12 [] f = "quarterly" -> 4
                [] f = "semiannual" -> 2 [] f = "annual" -> 1

\* ln of the discount factor of a rate, and back
LnDFOfRate(f, t, r) ==
  CASE f = "continuous" -> RNeg(RMul(r, t))
    [] f = "simple" -> RNeg(RLn(RAdd(1, RMul(r, t))))
    [] OTHER -> RNeg(RMul(RMul(PerYear(f), t), RLn(RAdd(1, RDiv(r, PerYear(f))))))
RateOfLnDF(f, t, ln) ==
  CASE f = "continuous" -> RNeg(RDiv(ln, t))
    [] f = "simple" -> RDiv(RSub(RExp(RNeg(ln)), 1), t)
    [] OTHER -> RMul(PerYear(f), RSub(RExp(RNeg(RDiv(ln, RMul(PerYear(f), t)))), 1))
\* the equivalent rate under another convention (term-independent unless one of them is simple)
Convert(f, g, r) == RateOfLnDF(g, 1, LnDFOfRate(f, 1, r))
=============================================================================
