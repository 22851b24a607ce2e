------------------------------- MODULE CosSeries -------------------------------
(* A law given by its characteristic function, recovered on a grid of points; the  *)
(* laws here are mixtures of two normals, whose density and distribution are known. *)
EXTENDS Heston
\* law g: [p, m1, s1, m2, s2] with weight p on the first normal
NPdf(x, m, s) == RDiv(RNormPdf(RDiv(RSub(x, m), s)), s)
NCdf(x, m, s) == RNormCdf(RDiv(RSub(x, m), s))
Mix(p, a, b) == RAdd(RMul(p, a), RMul(RSub(1, p), b))
Density(g, x) == Mix(g.p, NPdf(x, g.m1, g.s1), NPdf(x, g.m2, g.s2))
Distribution(g, x) == Mix(g.p, NCdf(x, g.m1, g.s1), NCdf(x, g.m2, g.s2))
MassOn(g, a, b) == RSub(Distribution(g, b), Distribution(g, a))
\* the mean and variance of ln(S_T / F) from the derivatives of its log characteristic function at 0
LawStep(h) == RDiv("0.003", RSqrt(MeanVar(h)))
LogMean(h) == LET e == LawStep(h) IN RDiv(LnChf(h, <<e, "0">>)[2], e)
LogVar(h) == LET e == LawStep(h) IN RDiv(RMul(-2, LnChf(h, <<e, "0">>)[1]), Sq(e))
=============================================================================
