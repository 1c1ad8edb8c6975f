----------------------------- MODULE MC_Combine -----------------------------
(***************************************************************************)
(* Every list of up to MAXRES small results; and the PSF fitting machine   *)
(* with every sequence of answers, against the monitor of Combine.         *)
(***************************************************************************)
EXTENDS Combine, Json
CONSTANTS MAXRES, NB, NTRY
VARIABLES rs, pc, bands, b, fits, out
vars == <<rs, pc, bands, b, fits, out>>

Res == {[none |-> 1, n |-> 0, cols |-> << >>, sb |-> << >>]}
       \cup [none : {0}, n : {0}, cols : {<<"a", Shared>>, <<"c", Shared>>}, sb : {<< >>}]
       \cup [none : {0}, n : {1}, cols : {<<"a", Shared>>, <<Shared, "b">>, <<"c", Shared>>}, sb : {<<"0">>, <<"1">>}]
       \cup [none : {0}, n : {2}, cols : {<<"b", Shared>>, <<"c", Shared>>}, sb : {<<"0", "0">>}]
Init == \/ \E n \in 1..MAXRES : \E r \in [1..n -> Res] :
             rs = r /\ pc = "combine" /\ bands = << >> /\ b = 1 /\ fits = << >> /\ out = ""
        \/ \E n \in 1..NB : \E bs \in [1..n -> 0..2] :
             rs = << >> /\ pc = "fit" /\ bands = bs /\ b = 1 /\ fits = << >> /\ out = ""
Tries(x) == Cardinality(Fitted(fits, x))
Fit ==
  /\ pc = "fit"
  /\ IF b > Len(bands) THEN pc' = "fitted" /\ out' = "ok" /\ UNCHANGED <<fits, b>>
     ELSE IF bands[b] # 1 THEN pc' = "fitted" /\ out' = "raise:AssertionError" /\ UNCHANGED <<fits, b>>
     ELSE \E f \in {0, 4} :
            /\ fits' = Append(fits, [b |-> b, flags |-> f])
            /\ IF f = 0 THEN b' = b + 1 /\ UNCHANGED <<pc, out>>
               ELSE IF Tries(b) + 1 < NTRY THEN UNCHANGED <<b, pc, out>>
               ELSE pc' = "fitted" /\ out' = "raise:BootPSFFailure" /\ UNCHANGED b
  /\ UNCHANGED <<rs, bands>>
Emit ==
  /\ pc \in {"combine", "fitted"}
  /\ PrintT("SCN " \o ToJson(IF pc = "combine" THEN [kind |-> "combine", parts |-> rs]
                             ELSE [kind |-> "psfs", bands |-> bands, fits |-> fits]))
  /\ pc' = "end_" \o pc /\ UNCHANGED <<rs, bands, b, fits, out>>
Next == Fit \/ Emit
Spec == Init /\ [][Next]_vars

MonitorAccepts == pc = "fitted" => FitOrder(bands, fits) /\ FitOutcome(bands, fits) = out
EverythingFitted == pc = "fitted" /\ out = "ok" => \A x \in DOMAIN bands : Fitted(fits, x) # {}
                                                      /\ LastOf(fits, x) = 0
NeverSilent == pc = "fitted" /\ (\E x \in DOMAIN bands : Fitted(fits, x) # {} /\ LastOf(fits, x) # 0)
               => out # "ok"
IsC == pc = "combine"
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == IsC => CombineOutcome(rs) = CombineOutcome(Rev(rs))
TableComplete == IsC /\ CombineOutcome(rs) = "table" =>
   /\ \A i \in Some(rs) : rs[i].n = Rows(rs) /\ RangeOf(Own(rs[i])) \subseteq RangeOf(AllOwn(rs, 1))
   /\ (Rows(rs) > 0 => Some(rs) = DOMAIN rs)
NeverMerged == IsC /\ CombineOutcome(rs) = "table" => Len(AllOwn(rs, 1)) = Cardinality(RangeOf(AllOwn(rs, 1)))
NothingLost == IsC /\ CombineOutcome(rs) = "none" => \A i \in DOMAIN rs : rs[i].none = 1
=============================================================================
