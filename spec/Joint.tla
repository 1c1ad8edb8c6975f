------------------------------- MODULE Joint -------------------------------
(***************************************************************************)
(* Joint measurement of one object: adaptive moments ("am") on the coadd   *)
(* of the shear bands, or a Gaussian fit ("gauss") to the shear bands or   *)
(* ("coadd") to their coadd.                                               *)
(*                                                                         *)
(* Answers of the measurement library, scripted by the scenario:           *)
(*   psf[b] : [exc, flags, T, g1, g2] for the PSF of band b-1              *)
(*   obj : [exc, flags, Tflags, T, Terr, g1, g2, s2n]                      *)
(* exc = 1 raises some error, exc = 2 one of the PSF errors.               *)
(***************************************************************************)
EXTENDS Coadd

OBJ_FAILURE == 4194304

BandProblem(bd) ==
  IF bd.n = 0 THEN MISSING_BAND
  ELSE IF bd.n > 1 THEN INCONSISTENT
  ELSE OrBits(If(~AnyPositive(bd.w), ZERO_WEIGHTS), If(bd.edge = 1, EDGE_HIT))
BandProblems(e) == OrSet({BandProblem(e.bands[b]) : b \in DOMAIN e.bands})
Coadds(e) == e.kind = "am" \/ e.coadd = 1
(* every reason for which nothing is measured *)
Refused(e) ==
  IF BandProblems(e) # 0 THEN OrBits(BandProblems(e), If(~Exists(e) /\ e.kind # "am", INCONSISTENT))
  ELSE IF ~Exists(e) THEN INCONSISTENT
  ELSE IF Coadds(e) THEN CoaddFlags(e) ELSE 0
Attempted(e) == Refused(e) = 0

PsfAns(e) == IF Coadds(e) THEN << e.psf[1] >>
             ELSE [n \in DOMAIN e.shear |-> e.psf[e.shear[n] + 1]]
PsfRaises(e) == \E n \in DOMAIN PsfAns(e) : PsfAns(e)[n].exc > 0
PsfExc(e) == MaxSet({PsfAns(e)[n].exc : n \in DOMAIN PsfAns(e)})
RaisedAs(x) == IF x = 2 THEN "psf_raised" ELSE "raised"
PsfAllBad(e) == \A n \in DOMAIN PsfAns(e) : PsfAns(e)[n].flags # 0
PsfBits(e) == OrSeq([n \in DOMAIN PsfAns(e) |-> PsfAns(e)[n].flags])

(* ---- where the measurement ends up ---- *)
Outcome(e) ==
  IF ~Attempted(e) THEN "refused"
  ELSE IF e.kind = "am"
       THEN IF PsfRaises(e) THEN "psf_raised" ELSE IF e.obj.exc > 0 THEN "obj_raised" ELSE "fit"
       ELSE IF PsfRaises(e) THEN RaisedAs(PsfExc(e)) ELSE IF PsfAllBad(e) THEN "psf_raised"
            ELSE IF e.obj.exc > 0 THEN RaisedAs(e.obj.exc) ELSE "fit"
PsfFilled(e) == /\ Outcome(e) = "fit" \/ (Outcome(e) = "obj_raised")
                /\ PsfBits(e) = 0
ShapeFilled(e) == Outcome(e) = "fit" /\ e.obj.flags = 0
SizeFlag(e) == IF e.kind = "am" THEN e.obj.Tflags ELSE e.obj.flags
SizeFilled(e) == Outcome(e) = "fit" /\ SizeFlag(e) = 0
RatioFilled(e) == PsfFilled(e) /\ SizeFilled(e)

Overall(e) ==
  CASE Outcome(e) = "refused" -> {OrBits(NO_ATTEMPT, Refused(e))}
    [] Outcome(e) = "psf_raised" -> {OrBits(NO_ATTEMPT, PSF_FAILURE)}
    [] Outcome(e) = "raised" -> {OrBits(NO_ATTEMPT, OrBits(OBJ_FAILURE, PSF_FAILURE))}
    \* nothing was measured, so that "not attempted" may stay
    [] Outcome(e) = "obj_raised" ->
         {OrBits(x, OrBits(OBJ_FAILURE, y)) : x \in {0, NO_ATTEMPT}, y \in {0, PsfBits(e)}}
    [] OTHER -> {OrBits(PsfBits(e), e.obj.flags)}
PsfFlag(e) ==
  IF Outcome(e) \in {"fit", "obj_raised"} THEN PsfBits(e) ELSE NO_ATTEMPT
ObjFlag(e) == IF Outcome(e) = "fit" THEN e.obj.flags ELSE NO_ATTEMPT
TFlag(e) == IF Outcome(e) = "fit" THEN SizeFlag(e) ELSE NO_ATTEMPT

(* ---- values ---- *)
PsfW(e) == IF Coadds(e) THEN << 1 >> ELSE Meds(e)
PsfT(e) == LET a == PsfAns(e) w == PsfW(e)
           IN Q(SumSeq([n \in DOMAIN a |-> w[n] * a[n].T]), SumSeq(w))
(* size-weighted shape; shapes are multiples of 1/6 *)
PsfG(e, sel(_)) ==
  LET a == PsfAns(e) w == PsfW(e)
  IN Q(SumSeq([n \in DOMAIN a |-> w[n] * a[n].T * sel(a[n])]),
       6 * SumSeq([n \in DOMAIN a |-> w[n] * a[n].T]))
G1(a) == a.g1
G2_(a) == a.g2

(* fluxes: one per measured band, in the listed order; with a coadd the one
   flux of the coadd for all of them *)
Shears(e, b) == \E n \in DOMAIN e.shear : e.shear[n] = b - 1
FluxDone(e, b) == e.kind = "gauss" /\ Outcome(e) = "fit" /\ Shears(e, b)
FluxFlag(e, b) == IF FluxDone(e, b) THEN e.obj.flags ELSE NO_ATTEMPT
Mid(g) == (Len(g) + 1) \div 2
FluxQ(e, b) == IF Coadds(e) THEN ValAt(e, "im", Mid(e.bands[b].im), Mid(e.bands[b].im))
               ELSE QI(e.bands[b].im[Mid(e.bands[b].im)][Mid(e.bands[b].im)])
=============================================================================
