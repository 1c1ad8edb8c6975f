--------------------------- MODULE MC_Pipeline ---------------------------
(***************************************************************************)
(* The protocol of a run, explored exhaustively over every combination of  *)
(* band combinations, PSF failures, metacal failures, detections and       *)
(* colours within the constants.                                           *)
(*                                                                         *)
(* The machine prepares an image set (PSF fits in order, then metacal)     *)
(* when it is first needed, and otherwise reuses it.  The monitor of       *)
(* Pipeline judges every environment call, and the catalogue that comes    *)
(* out must be the declaratively defined one.                              *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS NB,           \* bands
          NCOL,         \* colour dependent sets
          NT,           \* shear types
          NOBJ,         \* objects per type
          MAXBAD,       \* failing PSF fits
          COMBS         \* set of sequences of band combinations
VARIABLES inp, pc, ci, ti, k, need, back, mon, rows, fault
vars == <<inp, pc, ci, ti, k, need, back, mon, rows, fault>>

Sets == 0..NCOL
QuickCombs == { << <<0, 1>> >>, << <<0>>, <<1>> >>, << <<1, 0>>, <<1>> >> }
ThoroughCombs == QuickCombs \cup { << <<1>>, <<0>>, <<0, 1>> >>, << <<0>>, <<0>> >> }
Types == 1..NT
PSFs == Sets \X (0..(NB - 1))
SmallSubsets(S, n) == {x \in SUBSET S : Cardinality(x) <= n}
KeySeqs == UNION {[1..n -> Sets] : n \in 0..NOBJ}
Inputs == [combs : COMBS, bad : SmallSubsets(PSFs, MAXBAD), mfail : SUBSET Sets,
           keys : [Types -> KeySeqs]]

C == [nband |-> NB]            \* what the monitor needs of a configuration
Init ==
  /\ inp \in Inputs
  /\ pc = "prep" /\ need = 0 /\ back = "comb"
  /\ ci = 1 /\ ti = 1 /\ k = 1
  /\ mon = MonInit(NCOL + 1) /\ rows = << >> /\ fault = FALSE

Ready(s) == mon.mcal[s + 1] > 0
Failed(s) == s \in inp.mfail

Fit ==
  /\ pc = "prep" /\ ~Ready(need)
  /\ ~mon.bad[need + 1] /\ mon.fits[need + 1] < NB
  /\ LET b == mon.fits[need + 1]
     IN /\ fault' = (fault \/ ~PsfAllowed(C, mon, need, b) \/ ~SetAllowed(C, mon, need))
        /\ mon' = MonPsf(mon, need, IF <<need, b>> \in inp.bad THEN 1 ELSE 0)
  /\ UNCHANGED <<inp, pc, ci, ti, k, need, back, rows>>
Metacal ==
  /\ pc = "prep" /\ ~Ready(need)
  /\ mon.bad[need + 1] \/ mon.fits[need + 1] = NB
  /\ fault' = (fault \/ ~MetacalAllowed(C, mon, need))
  /\ mon' = MonMetacal(mon, need)
  /\ UNCHANGED <<inp, pc, ci, ti, k, need, back, rows>>
Prepared_ ==
  /\ pc = "prep" /\ Ready(need)
  /\ pc' = IF need = 0 /\ Failed(0) THEN "none" ELSE back
  /\ UNCHANGED <<inp, ci, ti, k, need, back, mon, rows, fault>>

(* one band combination, one shear type, one object at a time *)
Comb ==
  /\ pc = "comb"
  /\ IF ci > Len(inp.combs) THEN pc' = "done" /\ UNCHANGED <<ti, k>>
     ELSE pc' = "object" /\ ti' = 1 /\ k' = 1
  /\ UNCHANGED <<inp, ci, need, back, mon, rows, fault>>
Object ==
  /\ pc = "object"
  /\ IF ti > NT THEN pc' = "comb" /\ ci' = ci + 1 /\ UNCHANGED <<ti, k, need, back, mon>>
     ELSE IF k > Len(inp.keys[ti]) THEN ti' = ti + 1 /\ k' = 1
                                        /\ UNCHANGED <<pc, ci, need, back, mon>>
     ELSE /\ need' = inp.keys[ti][k] /\ back' = "measure" /\ pc' = "prep"
          /\ mon' = MonKey(mon, inp.keys[ti][k])
          /\ UNCHANGED <<ci, ti, k>>
  /\ UNCHANGED <<inp, rows, fault>>
Measure ==
  /\ pc = "measure"
  /\ rows' = IF Failed(need) THEN rows
             ELSE Append(rows, [comb |-> ci, type |-> ti, obj |-> k, set |-> need])
  /\ k' = k + 1 /\ pc' = "object"
  /\ UNCHANGED <<inp, ci, ti, need, back, mon, fault>>

Emit ==
  /\ pc \in {"done", "none"}
  /\ PrintT("SCN " \o ToJson([kind |-> "pipe", nband |-> NB, ncol |-> NCOL,
        combs |-> inp.combs, keys |-> inp.keys,
        bad |-> inp.bad, mfail |-> inp.mfail]))
  /\ pc' = "end"
  /\ UNCHANGED <<inp, ci, ti, k, need, back, mon, rows, fault>>
Next == Fit \/ Metacal \/ Prepared_ \/ Comb \/ Object \/ Measure \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------ properties *)
CallsAllowed == ~fault
OncePerSet == \A s \in Sets : mon.mcal[s + 1] <= 1 /\ mon.fits[s + 1] <= NB
UsedSets == {0} \cup UNION {RangeOf(inp.keys[t]) : t \in Types}
OnlyUsedSets ==
  pc = "end" => \A s \in Sets : mon.mcal[s + 1] =
     (IF Failed(0) THEN (IF s = 0 THEN 1 ELSE 0)
      ELSE IF Len(inp.combs) = 0 THEN (IF s = 0 THEN 1 ELSE 0)
      ELSE IF s \in UsedSets THEN 1 ELSE 0)
(* the rows of a combination, defined without reference to the others *)
RowsOf(i, t) ==
  LET good == SelectSeq([n \in DOMAIN inp.keys[t] |-> n],
                        LAMBDA n : inp.keys[t][n] \notin inp.mfail)
  IN [n \in DOMAIN good |-> [comb |-> i, type |-> t, obj |-> good[n],
                             set |-> inp.keys[t][good[n]]]]
RECURSIVE Cat(_, _)
Cat(i, t) == IF i > Len(inp.combs) THEN << >>
             ELSE IF t > NT THEN Cat(i + 1, 1) ELSE RowsOf(i, t) \o Cat(i, t + 1)
Catalogue == pc = "end" => rows = (IF Failed(0) THEN << >> ELSE Cat(1, 1))
Terminates == <>(pc = "end")
=============================================================================
