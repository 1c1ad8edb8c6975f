----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Instances sharing images, configurations and generators, in every order *)
(* of construction, execution (also from within the colour function of     *)
(* another run), failure and reading.  PSF fits are stored with the images *)
(* (and so shared), an instance keeps what it read of them.  A draw is the *)
(* pair <<seed, position>>.                                                *)
(***************************************************************************)
EXTENDS Session, Json
CONSTANTS INST, NOBS, NCFG, NGEN, LEN, SHAREDCACHE
VARIABLES give,      \* instance -> [obs, cfg, gen]
          made,      \* constructed instances
          pos,       \* generator -> number of draws
          stored,    \* images -> draw used by the last PSF fit of them
          cache,     \* instance (or configuration, if shared) -> draw it read
          stack,     \* active runs, innermost last: [i, ph]
          starts,    \* instance -> starts of its runs
          res,       \* instance -> last result
          log,       \* finished runs
          hist       \* the steps
vars == <<give, made, pos, stored, cache, stack, starts, res, log, hist>>
BOOM == NCFG       \* the configuration whose runs fail

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
SetTop(ph) == [stack EXCEPT ![Len(stack)].ph = ph]
Seed(g) == 1           \* both generators start from the same seed
Draw(g) == << Seed(g), pos[g] >>
Slot(i) == IF SHAREDCACHE THEN give[i].cfg ELSE i
Slots == INST \cup (1..NCFG)
Active == {stack[n].i : n \in DOMAIN stack}

Init == /\ give = << >> /\ made = {} /\ pos = [g \in 1..NGEN |-> 0]
        /\ stored = [o \in 1..NOBS |-> << >>] /\ cache = [k \in Slots |-> << >>]
        /\ stack = << >> /\ starts = [i \in INST |-> << >>] /\ res = [i \in INST |-> << >>]
        /\ log = {} /\ hist = << >>
Room == Len(hist) < LEN
\* instances are numbered in the order of their construction
New(i) == /\ Room /\ stack = << >> /\ i \notin made /\ (\A j \in INST : j < i => j \in made)
          /\ made' = made \cup {i}
          /\ \E o \in 1..NOBS, c \in 1..NCFG, g \in 1..NGEN :
               /\ give' = (i :> [obs |-> o, cfg |-> c, gen |-> g]) @@ give
               /\ hist' = Append(hist, << "new", i, o, c, g >>)
          /\ UNCHANGED <<pos, stored, cache, stack, starts, res, log>>
CanNest(i) == \A j \in Active : (give[j].obs # give[i].obs /\ give[j].gen # give[i].gen)
Enter(i) == /\ Room /\ i \in made /\ i \notin Active
            /\ stack = << >> \/ (Len(stack) = 1 /\ Top.ph = "colour" /\ CanNest(i))
            /\ Len(starts[i]) < 2
            /\ starts' = [starts EXCEPT ![i] = Append(@, Draw(give[i].gen))]
            /\ stack' = Append(stack, [i |-> i, ph |-> "psf"])
            /\ hist' = Append(hist, << IF stack = << >> THEN "go" ELSE "nested", i >>)
            /\ UNCHANGED <<give, made, pos, stored, cache, res, log>>
Psf == /\ stack # << >> /\ Top.ph = "psf"
       /\ LET i == Top.i
              g == give[i].gen
          IN IF cache[Slot(i)] # << >> THEN UNCHANGED <<pos, stored, cache>>
             ELSE /\ stored' = [stored EXCEPT ![give[i].obs] = Draw(g)]
                  /\ pos' = [pos EXCEPT ![g] = @ + 1]
                  /\ cache' = [cache EXCEPT ![Slot(i)] = Draw(g)]
       /\ stack' = SetTop(IF give[Top.i].cfg = BOOM THEN "boom" ELSE "colour")
       /\ UNCHANGED <<give, made, starts, res, log, hist>>
Boom == /\ stack # << >> /\ Top.ph = "boom" /\ stack' = Pop
        /\ UNCHANGED <<give, made, pos, stored, cache, starts, res, log, hist>>
Measure == /\ stack # << >> /\ Top.ph = "colour"
           /\ LET i == Top.i
                  g == give[i].gen
                  r == << give[i].cfg, cache[Slot(i)], Draw(g) >>
              IN /\ pos' = [pos EXCEPT ![g] = @ + 1]
                 /\ res' = [res EXCEPT ![i] = r]
                 /\ log' = log \cup {[key |-> KeyOf([kind |-> "mdet", cfg |-> give[i].cfg, obs |-> give[i].obs,
                                                     comb |-> 0], starts[i]), res |-> r]}
           /\ stack' = Pop
           /\ UNCHANGED <<give, made, stored, cache, starts, hist>>
Read(i) == /\ Room /\ stack = << >> /\ i \in made
           /\ (hist[Len(hist)][1] # "read") /\ hist' = Append(hist, << "read", i >>)
           /\ UNCHANGED <<give, made, pos, stored, cache, stack, starts, res, log>>
Emit == /\ stack = << >> /\ Len(hist) = LEN
        /\ Cardinality({n \in DOMAIN hist : hist[n][1] \in {"go", "nested"}}) >= 2
        /\ PrintT("SCN " \o ToJson([kind |-> "session", steps |-> hist]))
        /\ hist' = Append(hist, << "end" >>)
        /\ UNCHANGED <<give, made, pos, stored, cache, stack, starts, res, log>>
Next == (\E i \in INST : New(i) \/ Enter(i) \/ Read(i)) \/ Psf \/ Boom \/ Measure \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Psf \/ Boom \/ Measure)

Functional == \A a, b \in log : (a.key = b.key => a.res = b.res)
\* the summary a run reports is of its own fit
OwnFit == \A a \in log : (Len(a.key[5]) = 1 => a.res[2] = a.key[5][1])
OthersKept == [][\A g \in 1..NGEN : (pos'[g] # pos[g]) => \E i \in Active : give[i].gen = g]_vars
ResultsKept == [][\A i \in INST : (res'[i] # res[i]) => (stack # << >> /\ Top.i = i)]_vars
Finishes == (stack # << >>) ~> (stack = << >>)
=============================================================================
