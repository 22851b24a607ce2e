------------------------------- MODULE Schedule -------------------------------
(* Schedule construction as a state machine.                                  *)
(*                                                                            *)
(* A request q is a record                                                    *)
(*   s, e       effective and termination date (day numbers)                  *)
(*   unit, n    "d"/"m" and the number of days / months of one period, or "z" *)
(*   conv       business-day convention          dr   0 none, 1..31, 32 = EOM *)
(*   fpe, lps   user specified first period end / last period start or NoDate *)
(*   fs, ls     stub types                       ru   roll user dates         *)
(*   cal        business-day calendar                                         *)
(* A schedule is the sequence of its boundaries <<b1 .. bm>>: period i runs   *)
(* from b[i] to b[i+1].                                                       *)
(*                                                                            *)
(* Actions: Plan (decide what to generate), Emit (one regular date at a time, *)
(* walking away from the anchor), Close, and Decide (stub analysis).          *)
EXTENDS Dates, TLC

VARIABLES q, ph, g, k, acc, fwd, bwd, out
svars == <<q, ph, g, k, acc, fwd, bwd, out>>

Short == "short"  Long == "long"  None == "none"  Default == "default"
DefF == "defined_first"  DefL == "defined_last"

DayRolled(dr, z) == IF dr = 0 THEN z
                    ELSE IF dr = 32 THEN EndOfMonth(z)
                    ELSE LET c == Civil(z) IN DaysFromCivil(c.y, c.m, Min2(dr, MonthLen(c.y, c.m)))

Shift(z, unit, n) == IF unit = "d" THEN z + n ELSE AddMonths(z, n)

\* The i-th regular date away from the anchor: always measured from the anchor itself
Regular(r, anchor, dir, i) ==
  Roll(r.cal, r.conv, DayRolled(r.dr, Shift(anchor, r.unit, (IF dir = "f" THEN 1 ELSE -1) * i * r.n)))

InSched(r, z) == IF r.ru THEN Roll(r.cal, r.conv, z) ELSE z

\* a generation job: regular dates anchored at a, between the user dates a and b
Job(r, dir, s, e, ret) ==
  [dir |-> dir, a |-> IF dir = "f" THEN s ELSE e,
   near |-> InSched(r, IF dir = "f" THEN s ELSE e),
   far  |-> InSched(r, IF dir = "f" THEN e ELSE s), ret |-> ret]

NoJob == [dir |-> "f", a |-> 0, near |-> 0, far |-> 0, ret |-> ""]

Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
DropAt(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
MergeFirst(b, min) == IF Len(b) - 1 > min THEN DropAt(b, 2) ELSE b
MergeLast(b, min)  == IF Len(b) - 1 > min THEN DropAt(b, Len(b) - 1) ELSE b

Go(p, job) == /\ ph' = p /\ g' = job /\ k' = 1 /\ acc' = <<>>
Done(b) == /\ ph' = "done" /\ out' = [ok |-> TRUE, b |-> b] /\ UNCHANGED <<q, g, k, acc, fwd, bwd>>
Reject == /\ ph' = "done" /\ out' = [ok |-> FALSE, b |-> <<>>] /\ UNCHANGED <<q, g, k, acc, fwd, bwd>>

InitVars == /\ ph = "plan" /\ g = NoJob /\ k = 0 /\ acc = <<>> /\ fwd = <<>> /\ bwd = <<>>
            /\ out = [ok |-> FALSE, b |-> <<>>]

HasF == q.fpe # NoDate
HasL == q.lps # NoDate
S == InSched(q, q.s)   E == InSched(q, q.e)   F == InSched(q, q.fpe)   L == InSched(q, q.lps)

Valid == /\ q.s < q.e
         /\ (HasF => q.s < q.fpe /\ q.fpe <= q.e)
         /\ (HasL => q.s <= q.lps /\ q.lps < q.e)

\* resolved stub types when no date is specified
Stubs0 == [f |-> IF q.fs # Default THEN q.fs ELSE IF q.ls \in {Default, None} THEN Short ELSE None,
           l |-> IF q.ls # Default THEN q.ls ELSE IF q.fs = None THEN Short ELSE None]

Plan == /\ ph = "plan"
        /\ \/ ~Valid /\ Reject
           \/ /\ Valid
              /\ \/ /\ q.unit = "z" \/ (HasF /\ q.fpe = q.e) \/ (HasL /\ q.lps = q.s)
                    /\ Done(<<S, E>>)
                 \/ /\ ~(q.unit = "z" \/ (HasF /\ q.fpe = q.e) \/ (HasL /\ q.lps = q.s))
                    /\ \/ HasF /\ HasL /\ q.fpe = q.lps /\ Done(<<S, F, E>>)
                       \/ /\ ~HasF /\ ~HasL
                          /\ \/ /\ Stubs0.l = None
                                /\ Go("emit", Job(q, "b", q.s, q.e, "main")) /\ UNCHANGED <<q, fwd, bwd, out>>
                             \/ /\ Stubs0.l # None /\ Stubs0.f = None
                                /\ Go("emit", Job(q, "f", q.s, q.e, "main")) /\ UNCHANGED <<q, fwd, bwd, out>>
                             \/ Stubs0.l # None /\ Stubs0.f # None /\ Reject
                       \/ /\ HasF \/ HasL
                          /\ ~(HasF /\ HasL /\ q.fpe = q.lps)
                          /\ Go("emit", Job(q, "b", q.s, q.e, "probeB")) /\ UNCHANGED <<q, fwd, bwd, out>>

Past(a, b) == IF g.dir = "f" THEN a >= b ELSE a <= b
LastAcc == IF acc = <<>> THEN g.near ELSE acc[Len(acc)]
Cand == Regular(q, g.a, g.dir, k)

\* one regular date; dates which roll onto (or behind) the previous boundary create no period
Emit == /\ ph = "emit" /\ ~Past(Cand, g.far)
        /\ acc' = IF Past(LastAcc, Cand) THEN acc ELSE Append(acc, Cand)
        /\ k' = k + 1
        /\ UNCHANGED <<q, ph, g, fwd, bwd, out>>

Bounds == IF g.dir = "f" THEN <<g.near>> \o acc \o <<g.far>> ELSE <<g.far>> \o Rev(acc) \o <<g.near>>

FirstB(b) == b[2]
LastB(b) == b[Len(b) - 1]

Min1 == 1
Close == /\ ph = "emit" /\ Past(Cand, g.far)
         /\ CASE g.ret = "main" ->
                   Done(IF g.dir = "b" THEN (IF Stubs0.f = Long THEN MergeFirst(Bounds, 1) ELSE Bounds)
                                       ELSE (IF Stubs0.l = Long THEN MergeLast(Bounds, 1) ELSE Bounds))
              [] g.ret = "probeB" ->
                   /\ bwd' = Bounds /\ Go("emit", Job(q, "f", q.s, q.e, "probeF")) /\ UNCHANGED <<q, fwd, out>>
              [] g.ret = "probeF" ->
                   /\ fwd' = Bounds /\ ph' = "decide" /\ UNCHANGED <<q, g, k, acc, bwd, out>>
              [] g.ret = "between" -> Done(<<S>> \o Bounds \o <<E>>)
              [] g.ret = "fromF" -> LET b == <<S>> \o Bounds IN Done(IF q.ls = Long THEN MergeLast(b, 2) ELSE b)
              [] g.ret = "toL" -> LET b == Bounds \o <<E>> IN Done(IF q.fs = Long THEN MergeFirst(b, 2) ELSE b)

\* Stub analysis for user specified dates: which generated schedule (if any) do they belong to?
FMatch == IF ~HasF THEN "absent"
          ELSE IF F = FirstB(fwd) THEN "f_none"
          ELSE IF F = FirstB(bwd) THEN "b_short"
          ELSE IF Len(bwd) > 2 /\ F = bwd[3] THEN "b_long"
          ELSE "defined"
LMatch == IF ~HasL THEN "absent"
          ELSE IF L = LastB(bwd) THEN "b_none"
          ELSE IF L = LastB(fwd) THEN "f_short"
          ELSE IF Len(fwd) > 2 /\ L = fwd[Len(fwd) - 2] THEN "f_long"
          ELSE "defined"

Dir(m) == IF m \in {"f_none", "f_short", "f_long"} THEN "f" ELSE "b"

\* boundaries when every specified date lies on the generated schedule of direction d
OnGenerated(fst, lst) ==
  IF fst = None THEN (IF lst = Long THEN MergeLast(fwd, 2) ELSE fwd)
  ELSE (IF fst = Long THEN MergeFirst(bwd, 2) ELSE bwd)

Decide ==
  /\ ph = "decide"
  /\ IF HasF /\ HasL
     THEN IF FMatch = "defined" \/ LMatch = "defined" \/ Dir(FMatch) # Dir(LMatch)
          THEN IF q.fpe < q.lps
               THEN Go("emit", Job(q, "b", q.fpe, q.lps, "between")) /\ UNCHANGED <<q, fwd, bwd, out>>
               ELSE Reject
          ELSE Done(OnGenerated(CASE FMatch = "f_none" -> None [] FMatch = "b_short" -> Short [] OTHER -> Long,
                                CASE LMatch = "b_none" -> None [] LMatch = "f_short" -> Short [] OTHER -> Long))
     ELSE IF HasF
     THEN CASE FMatch = "defined" -> Go("emit", Job(q, "f", q.fpe, q.e, "fromF")) /\ UNCHANGED <<q, fwd, bwd, out>>
            [] FMatch = "f_none" -> Done(OnGenerated(None, IF q.ls = Default THEN Short ELSE q.ls))
            [] OTHER -> IF q.ls \in {Default, None}
                        THEN Done(OnGenerated(IF FMatch = "b_short" THEN Short ELSE Long, None))
                        ELSE Reject
     ELSE CASE LMatch = "defined" -> Go("emit", Job(q, "b", q.s, q.lps, "toL")) /\ UNCHANGED <<q, fwd, bwd, out>>
            [] LMatch = "b_none" -> Done(IF q.fs = Long THEN MergeFirst(bwd, 2) ELSE bwd)
            [] OTHER -> IF q.fs \in {Default, None}
                        THEN Done(OnGenerated(None, IF LMatch = "f_short" THEN Short ELSE Long))
                        ELSE Reject

Next == Plan \/ Emit \/ Close \/ Decide
-----------------------------------------------------------------------------
(* Design properties, evaluated in every reachable state *)
B == out.b
Finished == ph = "done" /\ out.ok
Tiles == Finished => /\ Len(B) >= 2 /\ B[1] = S /\ B[Len(B)] = E
NonDegenerate == S < E /\ (HasF => S < F /\ (q.fpe = q.e \/ F < E)) /\ (HasL => L < E /\ (q.lps = q.s \/ S < L))
                 /\ (HasF /\ HasL /\ q.fpe # q.lps => F < L)
Ordered == Finished /\ NonDegenerate => \A i \in 1..(Len(B) - 1) : B[i] < B[i + 1]
InteriorBusiness == Finished /\ q.conv # "unadjusted"
                    => \A i \in 2..(Len(B) - 1) : IsBus(q.cal, B[i]) \/ B[i] \in {F, L}
UserDatesKept == Finished /\ NonDegenerate
                 /\ q.unit # "z" =>
                 /\ (HasF => IF q.fpe = q.e \/ (HasL /\ q.lps = q.s) THEN TRUE ELSE B[2] = F)
                 /\ (HasL => IF q.lps = q.s \/ (HasF /\ q.fpe = q.e) THEN TRUE ELSE B[Len(B) - 1] = L)
=============================================================================
