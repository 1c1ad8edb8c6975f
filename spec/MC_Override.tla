---------------------------- MODULE MC_Override ----------------------------
(***************************************************************************)
(* Overrides written leaf by leaf, in any order, into a configuration made *)
(* from shared defaults; every subset of the settings.                     *)
(***************************************************************************)
EXTENDS LsstRun, Json
CONSTANTS LEAVES
VARIABLES chosen, todo, cfg, defaults, pc
vars == <<chosen, todo, cfg, defaults, pc>>
Init == /\ chosen \in SUBSET LEAVES /\ todo = chosen
        /\ defaults = [k \in LEAVES |-> 0] /\ cfg = [k \in LEAVES |-> 0] /\ pc = "write"
Write == /\ pc = "write" /\ \E k \in todo : cfg' = [cfg EXCEPT ![k] = 1] /\ todo' = todo \ {k}
         /\ UNCHANGED <<chosen, defaults, pc>>
Fresh == /\ pc = "write" /\ todo = {} /\ pc' = "end"
         /\ PrintT("SCN " \o ToJson([kind |-> "settings", names |-> chosen]))
         /\ UNCHANGED <<chosen, todo, cfg, defaults>>
Next == Write \/ Fresh
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyNamed == \A k \in LEAVES : k \notin chosen => cfg[k] = 0
AllSetAtEnd == pc = "end" => \A k \in chosen : cfg[k] = 1
DefaultsKept == [][UNCHANGED defaults]_vars
=============================================================================
