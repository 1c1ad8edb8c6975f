------------------------------ MODULE MC_Config ------------------------------
(***************************************************************************)
(* Histories of configuration requests and modifications of what is held:  *)
(* held[1] is the caller's configuration, the others were returned.        *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS MAXSTEPS, MAXHELD
VARIABLES held, defaults, hist, pc
vars == <<held, defaults, hist, pc>>
Entries == {<<"", "deblender", "'scarlet'">>, <<"", "stamp_size", "39">>, <<"detect", "thresh", "7.0">>,
            <<"pgauss", "fwhm", "1.2">>, <<"metacal", "types", "['noshear', '1p']">>,
            <<"", "bogus", "1">>, <<"detect", "bogus", "2">>, <<"pgauss", "bogus", "3">>}
Init == held = <<{}>> /\ defaults = Default /\ hist = << >> /\ pc = "run"
Get(i) ==
  /\ Len(held) < MAXHELD
  /\ held' = IF Bad(held[i]) THEN held ELSE Append(held, Full(held[i]))
  /\ hist' = Append(hist, [act |-> "get", i |-> i, e |-> << >>])
Set(i, e) == /\ held' = [held EXCEPT ![i] = Put(@, e)]
             /\ hist' = Append(hist, [act |-> "set", i |-> i, e |-> e])
Del(i) == \E e \in held[i] : /\ held' = [held EXCEPT ![i] = Drop(@, e[1], e[2])]
                             /\ hist' = Append(hist, [act |-> "del", i |-> i, e |-> e])
Next == \/ /\ pc = "run" /\ Len(hist) < MAXSTEPS
           /\ \E i \in DOMAIN held : Get(i) \/ (\E e \in Entries : Set(i, e)) \/ Del(i)
           /\ UNCHANGED <<defaults, pc>>
        \/ /\ pc = "run" /\ Len(hist) = MAXSTEPS /\ pc' = "end" /\ UNCHANGED <<held, defaults, hist>>
           /\ PrintT("SCN " \o ToJson([kind |-> "hist", steps |-> hist]))
Spec == Init /\ [][Next]_vars
DefaultsFixed == defaults = Default
(* one value per key *)
Functional == \A i \in DOMAIN held : \A a, b \in held[i] : Path(a) = Path(b) => a = b
Complete == \A i \in DOMAIN held : ~Bad(held[i]) =>
   /\ {Path(e) : e \in Default} \subseteq {Path(e) : e \in Full(held[i])}
   /\ held[i] \subseteq Full(held[i])
Idempotent == \A i \in DOMAIN held : ~Bad(held[i]) => Full(Full(held[i])) = Full(held[i])
=============================================================================
