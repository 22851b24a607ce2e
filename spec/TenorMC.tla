-------------------------------- MODULE TenorMC --------------------------------
(* Enumerates written tenors (with presentation variants) and dates, prints the  *)
(* canonical text and the date reached for replay into the code.                 *)
EXTENDS Tenor, Json
CONSTANTS Ns, Ms, Decors, Days0
VARIABLES t, form, decor, valid
vars == <<t, form, decor, valid>>
Tenors == {[k |-> k, n |-> 0, m |-> 0] : k \in Specials} \cup {[k |-> k, n |-> n, m |-> 0] : k \in Units, n \in Ns}
          \cup {[k |-> "ym", n |-> n, m |-> m] : n \in Ns, m \in Ms}
Init == /\ t \in Tenors /\ form = <<>> /\ decor = "" /\ valid = "start"
Write == /\ valid = "start" /\ form' \in Forms(t) /\ decor' \in Decors /\ valid' = "yes" /\ UNCHANGED t
Garble == /\ valid = "start" /\ t = [k |-> "sp", n |-> 0, m |-> 0] /\ valid' = "no" /\ UNCHANGED t
          /\ \/ form' \in Malformed /\ decor' \in Decors
             \/ form' \in Garbage /\ decor' \in Decors \cap {"plain", "upper"}
Next == Write \/ Garble
Spec == Init /\ [][Next]_vars
\* different tenors never share a canonical text; the date reached moves forward with n
Unambiguous == valid = "start" => \A u \in Tenors : Canonical(u) = Canonical(t) => u = t
Forward == valid = "start" => \A z \in Days0 : Reach(t, z) >= z /\ Reach(t, z + 1) >= Reach(t, z)
Emitted == valid # "start" =>
   PrintT("CASE " \o ToJson([form |-> form, decor |-> decor, valid |-> valid = "yes", k |-> t.k, canon |-> Canonical(t),
                             reach |-> IF valid = "yes" THEN [z \in 1..Cardinality(Days0) |-> LET d == CHOOSE x \in Days0 : Cardinality({y \in Days0 : y < x}) = z - 1
                                                                    IN <<d, Reach(t, d)>>] ELSE <<>>]))
=============================================================================
