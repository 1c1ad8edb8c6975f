------------------------------ MODULE MC_Joint ------------------------------
(***************************************************************************)
(* The joint measurement as a machine: look at the bands one by one, form  *)
(* the coadd, fit the PSF(s), fit the object, write the flags as one goes. *)
(* Explored for every combination of band condition, selection and answer; *)
(* what it ends with must be what Joint defines from the inputs, and the   *)
(* results must mean what they say.                                        *)
(***************************************************************************)
EXTENDS Joint, Json
CONSTANTS MAXBAND
VARIABLES e, pc, b, why, fl, pf, of
vars == <<e, pc, b, why, fl, pf, of>>

One == << <<1>> >>
Zero == << <<0>> >>
BandKinds == {"ok", "none", "two", "zero", "edge"}
MkBand(k, j) ==
  [n |-> CASE k = "none" -> 0 [] k = "two" -> 2 [] OTHER -> 1,
   w |-> IF k = "zero" THEN Zero ELSE One, edge |-> IF k = "edge" THEN 1 ELSE 0,
   im |-> One, mf |-> << >>, no |-> << >>, bm |-> One, om |-> << >>, psf |-> One,
   jac |-> 0, pjac |-> j]
Shears_(n) == { <<0>>, <<n - 1>>, <<n>> } \cup (IF n > 1 THEN { <<1, 0>>, <<0, 1>>, <<0, n>> } ELSE {<<0, 1>>})
PsfKinds == {"ok", "flag", "exc", "psfexc"}
Exc(k) == CASE k = "exc" -> 1 [] k = "psfexc" -> 2 [] OTHER -> 0
MkPsf(k) == [exc |-> Exc(k), flags |-> IF k = "flag" THEN 8 ELSE 0,
             T |-> 2, g1 |-> 0, g2 |-> 0]
MkObj(k) == [exc |-> Exc(k), flags |-> IF k \in {"flag", "both"} THEN 4 ELSE 0,
             Tflags |-> IF k \in {"T", "both"} THEN 8 ELSE 0, T |-> 2, Terr |-> 1, g1 |-> 0, g2 |-> 0,
             s2n |-> 5]
Fits == {<<"am", 0>>, <<"gauss", 0>>, <<"gauss", 1>>}

Init ==
  \E n \in 1..MAXBAND : \E ks \in [1..n -> BandKinds] : \E sh \in Shears_(n) : \E odd \in {0, 1} :
  \E f \in Fits : \E p \in PsfKinds : \E o \in {"ok", "flag", "T", "both", "exc", "psfexc"} :
    /\ e = [bands |-> [i \in 1..n |-> MkBand(ks[i], IF i = n /\ n > 1 THEN odd ELSE 0)], shear |-> sh,
            kind |-> f[1], coadd |-> f[2], symm |-> 0,
            psf |-> [i \in 1..n |-> MkPsf(p)], obj |-> MkObj(o),
            skel |-> [ks |-> ks, odd |-> odd, p |-> p, o |-> o]]
    /\ pc = "look" /\ b = 1 /\ why = 0
    /\ fl = NO_ATTEMPT /\ pf = NO_ATTEMPT /\ of = NO_ATTEMPT

Look ==
  /\ pc = "look"
  /\ IF b > Len(e.bands)
     THEN /\ pc' = IF why # 0 THEN "give_up" ELSE "select"
          /\ UNCHANGED <<b, why>>
     ELSE /\ why' = OrBits(why, BandProblem(e.bands[b]))
          /\ b' = b + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<e, fl, pf, of>>
Select ==
  /\ pc = "select"
  /\ why' = IF ~Exists(e) THEN INCONSISTENT ELSE IF Coadds(e) THEN CoaddFlags(e) ELSE 0
  /\ pc' = IF why' = 0 THEN "psf" ELSE "give_up"
  /\ UNCHANGED <<e, b, fl, pf, of>>
FitPsf ==
  /\ pc = "psf"
  /\ LET bad == PsfRaises(e) \/ (e.kind = "gauss" /\ PsfAllBad(e))
     IN /\ why' = IF ~bad THEN 0
                  ELSE IF e.kind = "gauss" /\ PsfRaises(e) /\ PsfExc(e) = 1 THEN OrBits(OBJ_FAILURE, PSF_FAILURE)
                  ELSE PSF_FAILURE
        /\ pc' = IF bad THEN "give_up" ELSE "object"
        /\ pf' = IF e.kind = "am" /\ ~bad THEN PsfBits(e) ELSE pf
  /\ UNCHANGED <<e, b, fl, of>>
FitObject ==
  /\ pc = "object"
  /\ IF e.obj.exc > 0
     THEN IF e.kind = "am" THEN fl' = OBJ_FAILURE /\ pc' = "done" /\ UNCHANGED <<pf, of, why>>
          ELSE why' = (IF e.obj.exc = 1 THEN OrBits(OBJ_FAILURE, PSF_FAILURE) ELSE PSF_FAILURE) /\ pc' = "give_up" /\ UNCHANGED <<fl, pf, of>>
     ELSE /\ of' = e.obj.flags /\ pf' = PsfBits(e) /\ fl' = OrBits(of', pf')
          /\ pc' = "done" /\ UNCHANGED why
  /\ UNCHANGED <<e, b>>
GiveUp ==
  /\ pc = "give_up" /\ fl' = OrBits(fl, why) /\ pc' = "done"
  /\ UNCHANGED <<e, b, why, pf, of>>
Emit ==
  /\ pc = "done"
  /\ PrintT("SCN " \o ToJson([kind |-> "joint", skel |-> e.skel, shear |-> e.shear,
                              fit |-> <<e.kind, e.coadd>>]))
  /\ pc' = "end" /\ UNCHANGED <<e, b, why, fl, pf, of>>
Next == Look \/ Select \/ FitPsf \/ FitObject \/ GiveUp \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "end"
(* for the Gaussian fit a selection of a missing band is reported with the others *)
FlagsAsDefined == Done =>
  \/ fl \in Overall(e)
  \/ (Outcome(e) = "refused" /\ BandProblems(e) # 0 /\ OrBits(fl, INCONSISTENT) \in Overall(e))
PartsAsDefined == Done => pf = PsfFlag(e) /\ of = ObjFlag(e)
(* what the results mean *)
CleanMeansMeasured ==
  Done /\ fl = 0 => ShapeFilled(e) /\ PsfFilled(e) /\ (e.kind # "am" => SizeFilled(e))
NotAttemptedMeansEmpty ==
  Done /\ fl % 2 = 1 => /\ fl # NO_ATTEMPT
                        /\ ~ShapeFilled(e) /\ ~SizeFilled(e) /\ ~RatioFilled(e)
UnusableNeverMeasured ==
  Done /\ (\E i \in DOMAIN e.bands : BandProblem(e.bands[i]) # 0) => ~Attempted(e) /\ fl % 2 = 1
PsfFailureShows == Done /\ PsfFlag(e) \notin {0, NO_ATTEMPT} /\ Outcome(e) = "fit"
                   => AndBits(fl, PsfFlag(e)) # 0
Terminates == <>Done
=============================================================================
