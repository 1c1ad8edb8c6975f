---------------------------- MODULE MC_LsstRun ----------------------------
(***************************************************************************)
(* A run as a sequence of steps, with failing PSF fits and types without   *)
(* sources; and the averages, for all small maps.                          *)
(***************************************************************************)
EXTENDS LsstRun, Json
CONSTANTS NB, TYPES, MAPVALS
VARIABLES api, nb, types, bad, reconv, sky, empty, fits, kernel, done, result, pc
vars == <<api, nb, types, bad, reconv, sky, empty, fits, kernel, done, result, pc>>

Init == /\ api \in {"mdet", "phot"} /\ nb \in 1..NB
        /\ types \in IF api = "mdet" THEN SUBSET TYPES \ {{}} ELSE {{"phot"}}
        /\ bad \in SUBSET (1..nb) /\ reconv \in IF api = "mdet" THEN {"fitgauss", "gauss"} ELSE {"none"}
        /\ sky \in BOOLEAN /\ empty \in SUBSET types
        /\ fits = [b \in 1..nb |-> "none"] /\ kernel = "none" /\ done = {} /\ result = << >> /\ pc = "start"
Start == /\ pc = "start" /\ pc' = IF sky THEN "sky" ELSE "psf"
         /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, fits, kernel, done, result>>
Sky == /\ pc = "sky" /\ pc' = "psf"
       /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, fits, kernel, done, result>>
Failed == \E b \in 1..nb : fits[b] = "bad"
NextBand == {b \in 1..nb : fits[b] = "none" /\ \A c \in 1..(b - 1) : fits[c] = "ok"}
Fit == /\ pc = "psf" /\ \E b \in NextBand : fits' = [fits EXCEPT ![b] = IF b \in bad THEN "bad" ELSE "ok"]
       /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, kernel, done, result, pc>>
Metacal == /\ pc = "psf" /\ NextBand = {}
           /\ kernel' = (IF api = "mdet" THEN Kernel(reconv, ~Failed) ELSE "none")
           /\ pc' = "types" /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, fits, done, result>>
OneType == /\ pc = "types"
           /\ \E t \in types \ done :
                /\ done' = done \cup {t}
                /\ result' = (t :> [rows |-> t \notin empty, flagged |-> Failed]) @@ result
           /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, fits, kernel, pc>>
End == /\ pc = "types" /\ done = types /\ pc' = "end"
       /\ PrintT("SCN " \o ToJson([kind |-> "run", api |-> api, nb |-> nb, types |-> types, bad |-> bad,
                                  reconv |-> reconv, sky |-> IF sky THEN 1 ELSE 0, empty |-> empty]))
       /\ UNCHANGED <<api, nb, types, bad, reconv, sky, empty, fits, kernel, done, result>>
Next == Start \/ Sky \/ Fit \/ Metacal \/ OneType \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EveryTypeAnswered == pc = "end" => DOMAIN result = types
EmptyTypesGiveNothing == pc = "end" => \A t \in types : result[t].rows = (t \notin empty)
FlaggedIffFailed == pc = "end" => \A t \in types : result[t].flagged = (bad # {})
KernelRight == pc = "end" /\ api = "mdet" => (kernel = "fitgauss") = (reconv = "fitgauss" /\ bad = {})
Proceeds == <>(pc = "end")

(* the average: between the extremes, exact for constants, zero without masks *)
Maps == [1..2 -> [1..3 -> MAPVALS]]
Places == {<< 0, 0 >>, << 16, 8 >>, << 13, -3 >>, << 9, 11 >>, << 19, 3 >>}
Matrices == {<< 4, 0, 0, 4 >>, << 0, 2, -2, 0 >>, << 3, 1, 1, -3 >>}
Value(g, m, p) == MaskedFraction(g, 8, m, p, 0, 0)
AverageRight ==
  \A g \in Maps : \A m \in Matrices : \A p \in Places :
    LET v == Value(g, m, p)
        all == {g[i][j] : i \in 1..2, j \in 1..3}
    IN /\ QLeq(Q(MinSet(all), 8), v) /\ QLeq(v, Q(MaxSet(all), 8))
       /\ ~AnyMasked(g) => v = << 0, 1 >>
       /\ Cardinality(all) = 1 /\ AnyMasked(g) => v = Q(MinSet(all), 8)
\* symmetric under a flip of the image
FlipRight ==
  \A g \in Maps : \A m \in Matrices :
    LET f == [i \in 1..2 |-> [j \in 1..3 |-> g[i][4 - j]]]
    IN Value(g, m, << 3, 2 >>) = Value(f, m, << 13, 2 >>)
ASSUME AverageRight
ASSUME FlipRight
ASSUME GWeight(0) = 4000 /\ \A q \in 0..4000 : GWeight(q + 1) <= GWeight(q) + 1
=============================================================================
