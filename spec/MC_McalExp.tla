----------------------------- MODULE MC_McalExp -----------------------------
(***************************************************************************)
(* A machine that makes the metacal products band by band, type by type,   *)
(* first of the data, then of the noise, then adds the noise to the data.  *)
(***************************************************************************)
EXTENDS McalExp, Json
CONSTANTS MAXT, MAXB, ASKED
VARIABLES api, types, nb, nstats, phase, b, lists, nlists, outcome
vars == <<api, types, nb, nstats, phase, b, lists, nlists, outcome>>

Seqs == UNION {[1..n -> ASKED] : n \in 0..MAXT}
Keys == Distinct(types)
Init == /\ api \in {"mb_fix", "mb", "exp_fix", "exp"} /\ types \in Seqs
        /\ nb \in 1..MAXB /\ (api \in {"exp", "exp_fix"} => nb = 1)
        /\ nstats \in (IF api \in {"mb", "mb_fix"} THEN 0..MAXB ELSE {0, 1})
        /\ phase = "check" /\ b = 1 /\ lists = [t \in Types |-> << >>] /\ nlists = [t \in Types |-> << >>]
        /\ outcome = "none"
Bad == \E i \in DOMAIN types : types[i] \notin Types
Check == /\ phase = "check"
         /\ IF Multi(api) /\ nstats # 0 /\ nstats # nb
            THEN phase' = "end" /\ outcome' = "raise:AssertionError"
            ELSE phase' = "data" /\ UNCHANGED outcome
         /\ UNCHANGED <<api, types, nb, nstats, b, lists, nlists>>
(* one band of the data *)
Data == /\ phase = "data"
        /\ IF Bad THEN phase' = "end" /\ outcome' = "raise:ValueError" /\ UNCHANGED <<b, lists>>
           ELSE /\ lists' = [t \in Types |-> IF t \in RangeOf(Keys) THEN Append(lists[t], <<DataTerm(t, b)>>) ELSE << >>]
                /\ b' = IF b = nb THEN 1 ELSE b + 1
                /\ phase' = IF b < nb THEN "data" ELSE IF Fixed(api) THEN "noise" ELSE "done"
                /\ UNCHANGED outcome
        /\ UNCHANGED <<api, types, nb, nstats, nlists>>
Noise == /\ phase = "noise"
         /\ nlists' = [t \in Types |-> IF t \in RangeOf(Keys) THEN Append(nlists[t], NoiseTerm(t, b)) ELSE << >>]
         /\ b' = IF b = nb THEN 1 ELSE b + 1
         /\ phase' = IF b < nb THEN "noise" ELSE "add"
         /\ UNCHANGED <<api, types, nb, nstats, lists, outcome>>
Add == /\ phase = "add"
       /\ lists' = [t \in Types |-> [i \in DOMAIN lists[t] |-> Append(lists[t][i], nlists[t][i])]]
       /\ phase' = "done"
       /\ UNCHANGED <<api, types, nb, nstats, b, nlists, outcome>>
Done == /\ phase = "done" /\ outcome = "none" /\ outcome' = "ok" /\ phase' = "end"
        /\ UNCHANGED <<api, types, nb, nstats, b, lists, nlists>>
Emit == /\ phase = "end"
        /\ PrintT("SCN " \o ToJson([kind |-> "mcal", api |-> api, types |-> types, nb |-> nb, nstats |-> nstats]))
        /\ phase' = "stop" /\ UNCHANGED <<api, types, nb, nstats, b, lists, nlists, outcome>>
Next == Check \/ Data \/ Noise \/ Add \/ Done \/ Emit
Spec == Init /\ [][Next]_vars

OutcomeRight == phase = "end" => outcome = Refused(api, nb, nstats, types)
(* every product is its own band's data and, if asked, its own band's noise *)
ProductsRight == (phase = "end" /\ outcome = "ok") =>
  \A t \in Types :
    IF t \in RangeOf(types)
    THEN /\ Len(lists[t]) = nb
         /\ \A i \in 1..nb : lists[t][i] = Product(api, t, i)
    ELSE lists[t] = << >>
NoKeyTwice == Cardinality(RangeOf(Keys)) = Len(Keys) /\ RangeOf(Keys) = RangeOf(types)
(* the algebra of the shears *)
Samples == {<<60000, 5000, 50000>>, <<20000, -7000, 41000>>, <<30000, 0, 30000>>}
ShearsUndo == \A t \in Types : \A m \in Samples : Close(Sheared(Inverse(t), Sheared(t, m)), m, 2)
TurningInverts == \A t \in Types : \A m \in Samples :
  Close(Turned(Sheared(t, Turned(m))), Sheared(Inverse(t), m), 1)
=============================================================================
