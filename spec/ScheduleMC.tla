------------------------------ MODULE ScheduleMC ------------------------------
(* Exhaustive small-world run of Schedule: every request over a window, each  *)
(* of which is also printed (with the boundaries the specification allows)    *)
(* for replay into the implementation when Dump = TRUE.                      *)
EXTENDS Schedule, Json
CONSTANTS Starts, Lens, Freqs, Convs, DayRolls, FOffs, LOffs, Stubs1, Stubs2, RollUser, Cals, Dump

CalOf(c) == CASE c = "all" -> [mask |-> <<1, 1, 1, 1, 1, 1, 1>>, hols |-> {}]
              [] c = "wk"  -> [mask |-> <<1, 1, 1, 1, 1, 0, 0>>, hols |-> {}]
              [] c = "hol" -> [mask |-> <<1, 1, 1, 1, 1, 0, 0>>,
                               hols |-> {18262, 18263, 18320, 18321, 18322, 18351, 18352, 18382, 18383, 18384, 18385, 18386, 18412, 18413}]
              [] c = "fri" -> [mask |-> <<1, 1, 1, 1, 0, 0, 1>>, hols |-> {18290, 18291, 18321, 18322}]

UnitOf(f) == IF f < 100 THEN [u |-> "d", n |-> f] ELSE IF f = 999 THEN [u |-> "z", n |-> 0] ELSE [u |-> "m", n |-> f - 100]

Init == /\ \E s \in Starts, len \in Lens, f \in Freqs, cv \in Convs, dr \in DayRolls, fo \in FOffs, lo \in LOffs,
              fs \in Stubs1, ls \in Stubs2, ru \in RollUser, cl \in Cals :
             q = [s |-> s, e |-> s + len, unit |-> UnitOf(f).u, n |-> UnitOf(f).n, conv |-> cv, dr |-> dr,
                  fpe |-> IF fo = 0 THEN NoDate ELSE s + fo, lps |-> IF lo = 0 THEN NoDate ELSE s + len - lo,
                  fs |-> fs, ls |-> ls, ru |-> ru, cal |-> CalOf(cl), cid |-> cl]
        /\ (q.dr # 0 => q.unit = "m")
        /\ InitVars
Spec == Init /\ [][Next]_svars
Emitted == (ph = "done" /\ Dump) => PrintT("CASE " \o ToJson([inp |-> [q EXCEPT !.cal = 0], out |-> out]))
Terminates == ph = "done" \/ ENABLED Next
=============================================================================
