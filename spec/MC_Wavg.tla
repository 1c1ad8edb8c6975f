------------------------------ MODULE MC_Wavg ------------------------------
(***************************************************************************)
(* A measurement which takes the bands one by one and accumulates flags    *)
(* and sums, for every list of up to NB bands of the given kinds, every    *)
(* choice of shear bands, with and without symmetrised weights and with    *)
(* and without regularisation.  The accumulated state must agree with the  *)
(* definitions of Wavg, which sum over sets of bands, and the definitions  *)
(* must have the properties a user relies on.                              *)
(***************************************************************************)
EXTENDS Wavg, Json
CONSTANTS NB, KINDS, TREGS
VARIABLES e, i, acc, kinds
vars == <<e, i, acc, kinds>>

W(a, b, c, d) == << <<a, b>>, <<c, d>> >>
Ans(mt, mf, norm) == [mom |-> 1, s |-> <<0, 0, 2, -1, mt, mf>>, cov |-> <<1, 1, 1, 1, 4, 1>>,
                      norm |-> norm, hasflux |-> 1, flux |-> mf, ferr |-> 1, fflags |-> 0]
Good == [n |-> 1, w |-> W(2, 2, 2, 2), edge |-> 0, obj |-> Ans(20, 10, 2), psf |-> Ans(4, 2, 1)]
KindOf(k) ==
  CASE k = "good" -> Good
    [] k = "other" -> [Good EXCEPT !.w = W(4, 6, 5, 7), !.obj = Ans(60, 20, 4), !.psf = Ans(9, 1, 2)]
    [] k = "nonorm" -> [Good EXCEPT !.obj = Ans(60, 10, -1), !.psf = Ans(8, 4, -1)]
    [] k = "missing" -> [Good EXCEPT !.n = 0]
    [] k = "edge" -> [Good EXCEPT !.edge = 1]
    [] k = "zero" -> [Good EXCEPT !.w = W(0, 0, 0, 0)]
    [] k = "symzero" -> [Good EXCEPT !.w = W(0, 3, 0, 3)]
    [] k = "nomom" -> [Good EXCEPT !.obj.mom = 0]
    [] k = "psfnomom" -> [Good EXCEPT !.psf.mom = 0]
    [] k = "psfnoflux" -> [Good EXCEPT !.psf.s[6] = 0]
    [] k = "noflux" -> [Good EXCEPT !.obj.hasflux = 0]
    [] k = "fluxflag" -> [Good EXCEPT !.obj.fflags = 64]
    [] k = "negflux" -> [Good EXCEPT !.obj.s[6] = -40]
    [] k = "negsize" -> [Good EXCEPT !.obj.s[5] = -90]
    [] k = "novar" -> [Good EXCEPT !.obj.cov[5] = 0]
    [] OTHER -> [Good EXCEPT !.psf.s[5] = -9]

Empty == [of |-> 0, pf |-> 0, ff |-> << >>, w |-> 0, sw |-> 0, oT |-> QI(0), oF |-> QI(0)]
Init ==
  /\ \E n \in 0..NB : \E ks \in [1..n -> KINDS] : kinds = ks
  /\ e = [bands |-> [b \in DOMAIN kinds |-> KindOf(kinds[b])], shear |-> << >>, symm |-> 0, treg |-> 0]
  /\ i = 0 /\ acc = Empty
RECURSIVE SeqOf(_, _)
SeqOf(S, k) == IF k >= NB THEN << >> ELSE (IF k \in S THEN <<k>> ELSE << >>) \o SeqOf(S, k + 1)
Choose ==
  /\ i = 0 /\ i' = 1
  /\ \E sh \in SUBSET (0..(Len(e.bands) - 1)) : \E sy \in {0, 1} : \E tr \in TREGS :
       e' = [e EXCEPT !.shear = SeqOf(sh, 0), !.symm = sy, !.treg = tr]
  /\ UNCHANGED <<acc, kinds>>

(* one band *)
Take ==
  /\ i >= 1 /\ i <= Len(e.bands)
  /\ LET bd == e.bands[i]
         sh == (i - 1) \in RangeOf(e.shear)
         pres == Present(bd, e.symm)
         use == sh /\ pres /\ bd.obj.mom = 1
     IN acc' = [acc EXCEPT
          !.ff = Append(@, FluxBand(bd, e.symm)),
          !.of = IF sh THEN OrBits(@, ObjBand(bd, e.symm)) ELSE @,
          !.pf = IF sh THEN OrBits(@, PsfBand(bd, e.symm)) ELSE @,
          !.w = IF sh THEN @ + W2(bd, e.symm) ELSE @,
          !.oT = IF use THEN QAdd(@, QMul(ObjFac(e, i), QI(bd.obj.s[5]))) ELSE @,
          !.oF = IF use THEN QAdd(@, QMul(ObjFac(e, i), QI(bd.obj.s[6]))) ELSE @]
  /\ i' = i + 1 /\ UNCHANGED <<e, kinds>>
Emit ==
  /\ i = Len(e.bands) + 1 /\ Len(e.bands) > 0
  /\ PrintT("SCN " \o ToJson([kind |-> "wavg", bands |-> e.bands, shear |-> e.shear,
                              symm |-> e.symm, reg |-> IF e.treg = 0 THEN 0 ELSE 200]))
  /\ i' = i + 1 /\ UNCHANGED <<e, acc, kinds>>
Next == Choose \/ Take \/ Emit
Spec == Init /\ [][Next]_vars

Done == i = Len(e.bands) + 1
(* ---- the machine agrees with the definitions ---- *)
FlagsAgree == Done => /\ ObjPre(e) = (IF NoBands(e) THEN MISSING_BAND ELSE acc.of)
                      /\ PsfPre(e) = (IF NoBands(e) THEN MISSING_BAND ELSE acc.pf)
                      /\ \A b \in DOMAIN e.bands : NoBands(e) \/ FluxFlagsOf(e, b) = acc.ff[b]
SumsAgree == Done /\ ObjPre(e) = 0 =>
  /\ acc.w = WSum(e) /\ acc.oT = SumM(e, ObjFac, Obj, 5) /\ acc.oF = SumM(e, ObjFac, Obj, 6)

(* ---- what a user relies on ---- *)
Sub(a, b) == AndBits(a, b) = a
PsfFailureShows == Done /\ PsfFlags(e) # 0 => AndBits(ObjFlags(e), PSF_FAILURE) # 0
Union == Done => /\ Sub(ObjFlags(e), AllFlags(e))
         /\ \A b \in DOMAIN e.bands : Sub(FluxFlagsOf(e, b), AllFlags(e))
Fine == {"good", "other", "nonorm"}
NoCauseNoBit == Done /\ Len(e.bands) > 0 /\ e.shear # << >> /\ (\A b \in DOMAIN kinds : kinds[b] \in Fine)
                => AllFlags(e) = 0
ShearTroubleShows == Done /\ (\E b \in Shear(e) : kinds[b] \notin (Fine \cup {"symzero", "noflux", "fluxflag",
                                                       "negflux", "negsize", "novar", "psfneg"}))
                     => ObjFlags(e) # 0
(* replacing a band that is not a shear band by a good one changes its flux flags only *)
OthersDoNotMatter == Done =>
  \A b \in DOMAIN e.bands \ Shear(e) :
     Shear(e) # {} =>
     LET f == [e EXCEPT !.bands[b] = Good]
     IN ObjFlags(f) = ObjFlags(e) /\ PsfFlags(f) = PsfFlags(e)
        /\ (ObjPre(e) = 0 => SumM(f, ObjFac, Obj, 5) = SumM(e, ObjFac, Obj, 5))
Mirror == LET n == Len(e.bands)
          IN [e EXCEPT !.bands = [b \in 1..n |-> e.bands[n + 1 - b]],
                       !.shear = [k \in DOMAIN e.shear |-> n - 1 - e.shear[k]]]
OrderFree == Done => /\ AllFlags(Mirror) = AllFlags(e) /\ PsfFlags(Mirror) = PsfFlags(e)
             /\ (ObjPre(e) = 0 => SumM(Mirror, ObjFac, Obj, 5) = SumM(e, ObjFac, Obj, 5))
Twice(w) == [r \in DOMAIN w |-> [c \in DOMAIN w[r] |-> 2 * w[r][c]]]
Scaled2 == [e EXCEPT !.bands = [b \in DOMAIN e.bands |-> [e.bands[b] EXCEPT !.w = Twice(@)]]]
(* a common factor of all weights cancels *)
ScaleFree == Done /\ ObjPre(e) = 0 /\ SumM(e, ObjFac, Obj, 6)[1] > 0 =>
  QDiv(SumM(Scaled2, ObjFac, Obj, 5), SumM(Scaled2, ObjFac, Obj, 6))
    = QDiv(SumM(e, ObjFac, Obj, 5), SumM(e, ObjFac, Obj, 6))
(* the averaged size lies between those of the bands *)
SizeOf(b) == Q(e.bands[b].obj.s[5], e.bands[b].obj.s[6])
Between == Done /\ ObjPre(e) = 0 /\ (\A b \in Shear(e) : e.bands[b].obj.s[6] > 0) =>
  LET t == QDiv(SumM(e, ObjFac, Obj, 5), SumM(e, ObjFac, Obj, 6))
  IN /\ \E b \in Shear(e) : QLeq(SizeOf(b), t)
     /\ \E b \in Shear(e) : QLeq(t, SizeOf(b))
(* regularisation can only make the size for the shape larger *)
RegOnlyAdds == Done /\ ObjPre(e) = 0 /\ SumM(e, ObjFac, Obj, 6)[1] >= 0 =>
  QLeq(SumM(e, ObjFac, Obj, 5), RegT(e))
=============================================================================
