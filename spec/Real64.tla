------------------------------- MODULE Real64 -------------------------------
(* Real arithmetic for TLC.  A real is a string holding a decimal literal    *)
(* (or an integer).  The operators are evaluated by the module override      *)
(* java/Real64.java in IEEE double precision; the bodies below only give     *)
(* their signatures.  Comparisons against the implementation always go       *)
(* through RClose with an explicit tolerance.                                *)
LOCAL Any == CHOOSE s \in STRING : TRUE
R(n) == Any                   \* integer or real literal as a real
RRatio(n, m) == Any           \* n / m
RAdd(a, b) == Any
RSub(a, b) == Any
RMul(a, b) == Any
RDiv(a, b) == Any
RPow(a, b) == Any
RNeg(a) == Any
RAbs(a) == Any
RExp(a) == Any
RLn(a) == Any
RSqrt(a) == Any
RMax(a, b) == Any
RMin(a, b) == Any
RLt(a, b) == TRUE
RLe(a, b) == TRUE
RIsNum(a) == TRUE             \* a finite number
RIsNaN(a) == TRUE
RClose(a, b, rtol, atol) == TRUE   \* |a-b| <= atol + rtol*max(|a|,|b|), both finite
RSum(s) == Any
RProd(s) == Any
RDot(s, t) == Any
RSolve(a, b) == <<>>          \* x with a x = b
RFloor(a) == 0
RNormPdf(a) == Any
RNormCdf(a) == Any
RCos(a) == Any
RSin(a) == Any
\* complex numbers <<re, im>> (principal square root and logarithm)
CAdd(a, b) == <<Any, Any>>
CSub(a, b) == <<Any, Any>>
CMul(a, b) == <<Any, Any>>
CDiv(a, b) == <<Any, Any>>
CSqrt(a) == <<Any, Any>>
CExp(a) == <<Any, Any>>
CLn(a) == <<Any, Any>>
=============================================================================
