------------------------------- MODULE Wavg -------------------------------
(***************************************************************************)
(* Band-averaged measurement of one object.                                *)
(*                                                                         *)
(* A band is [n : observations in it (0 or 1), w : weight grid, edge : 0/1 *)
(* (the mask carries an edge flag), obj, psf : moments answers].           *)
(* An answer is [mom : 0/1 has moments, s : six sums, cov : six variances, *)
(* norm : weight normalisation (-1 if not reported), hasflux, flux, ferr,  *)
(* fflags].                                                                *)
(***************************************************************************)
EXTENDS Stamps

NONPOS_FLUX == 4
NONPOS_SIZE == 8
NONPOS_VAR == 64
EDGE_HIT == 1048576
PSF_FAILURE == 2097152
NOMOMENTS == 8388608
ZERO_WEIGHTS == 33554432
MISSING_BAND == 134217728
INCONSISTENT == 268435456
NO_ATTEMPT == 1

Or2(a, b) == OrBits(a, b)
If(c, v) == IF c THEN v ELSE 0
OrSet(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN 0
                        ELSE LET x == CHOOSE y \in T : TRUE IN OrBits(x, F(T \ {x}))
            IN F(S)

Wgt(bd, symm) == IF symm = 1 THEN SymWeight(bd.w) ELSE bd.w
BaseFlags(bd, symm) ==
  IF bd.n = 0 THEN MISSING_BAND
  ELSE OrBits(If(~AnyPositive(Wgt(bd, symm)), ZERO_WEIGHTS), If(bd.edge = 1, EDGE_HIT))
Present(bd, symm) == BaseFlags(bd, symm) = 0
W2(bd, symm) == IF Present(bd, symm) THEN PosMedian2(Wgt(bd, symm)) ELSE 0

(* ---- flags before any moment is averaged ---- *)
ObjBand(bd, symm) ==
  IF ~Present(bd, symm) THEN OrBits(BaseFlags(bd, symm), OrBits(MISSING_BAND, ZERO_WEIGHTS))
  ELSE If(bd.obj.mom = 0, NOMOMENTS)
PsfBand(bd, symm) ==
  IF ~Present(bd, symm) THEN OrBits(BaseFlags(bd, symm), OrBits(MISSING_BAND, ZERO_WEIGHTS))
  ELSE IF bd.obj.mom = 0 \/ bd.psf.mom = 0 THEN NOMOMENTS
  ELSE If(bd.psf.s[6] = 0 \/ (bd.psf.norm >= 0 /\ bd.obj.norm = 0), ZERO_WEIGHTS)
FluxBand(bd, symm) ==
  IF ~Present(bd, symm) THEN OrBits(BaseFlags(bd, symm), MISSING_BAND)
  ELSE IF bd.obj.hasflux = 0 THEN NOMOMENTS ELSE bd.obj.fflags

(* the shear bands that exist *)
Shear(e) == {b \in DOMAIN e.bands : (b - 1) \in RangeOf(e.shear)}
ShearSeq(e) == SelectSeq([b \in DOMAIN e.bands |-> b], LAMBDA b : b \in Shear(e))
NoBands(e) == Len(e.bands) = 0 \/ Shear(e) = {}
ObjPre(e) == IF NoBands(e) THEN MISSING_BAND
             ELSE OrSet({ObjBand(e.bands[b], e.symm) : b \in Shear(e)})
PsfPre(e) == IF NoBands(e) THEN MISSING_BAND
             ELSE OrSet({PsfBand(e.bands[b], e.symm) : b \in Shear(e)})

(* ---- averaged moments (sums over bands; common factors cancel) ---- *)
NormOf(a) == IF a.norm >= 0 THEN a.norm ELSE 1
(* factor of a band in the object's and the PSF's sum *)
ObjFac(e, b) == LET bd == e.bands[b] IN Q(W2(bd, e.symm), NormOf(bd.obj))
PsfFac(e, b) ==
  LET bd == e.bands[b]
      w == QI(W2(bd, e.symm))
      both == bd.obj.norm >= 0 /\ bd.psf.norm >= 0
      ratio == IF both THEN Q(bd.obj.s[6] * bd.psf.norm, bd.obj.norm * bd.psf.s[6])
               ELSE Q(bd.obj.s[6], bd.psf.s[6])
  IN QDiv(QMul(w, ratio), QI(NormOf(bd.psf)))
SumM(e, fac(_, _), ans(_), i) ==
  LET sb == ShearSeq(e)
  IN SumSeqQ([n \in DOMAIN sb |-> QMul(fac(e, sb[n]), QI(ans(e.bands[sb[n]]).s[i]))])
(* is the averaged variance of moment i positive? *)
VarPos(e, fac(_, _), ans(_), i) ==
  IF \E b \in Shear(e) : ans(e.bands[b]).cov[i] < 0
  THEN LET sb == ShearSeq(e)
       IN SumSeqQ([n \in DOMAIN sb |-> QMul(QMul(fac(e, sb[n]), fac(e, sb[n])),
                                            QI(ans(e.bands[sb[n]]).cov[i]))])[1] > 0
  ELSE \E b \in Shear(e) : fac(e, b)[1] # 0 /\ ans(e.bands[b]).cov[i] > 0
Obj(bd) == bd.obj
Psf(bd) == bd.psf

WSum(e) == LET sb == ShearSeq(e) IN SumSeq([n \in DOMAIN sb |-> W2(e.bands[sb[n]], e.symm)])
(* averaged flux over the bands, without normalisation: w * F *)
FluxSum(e, ans(_)) ==
  LET sb == ShearSeq(e)
  IN SumSeq([n \in DOMAIN sb |-> W2(e.bands[sb[n]], e.symm) * ans(e.bands[sb[n]]).s[6]])
FluxVarSum(e, ans(_)) ==
  LET sb == ShearSeq(e)
  IN SumSeq([n \in DOMAIN sb |->
        W2(e.bands[sb[n]], e.symm) * W2(e.bands[sb[n]], e.symm) * ans(e.bands[sb[n]]).cov[6]])

Pos(q) == q[1] > 0
(* flags of a set of averaged moments with size mt *)
MomFlags(e, fac(_, _), ans(_), mt) ==
  LET mf == SumM(e, fac, ans, 6)
  IN IF \E i \in 1..6 : ~VarPos(e, fac, ans, i) THEN NONPOS_VAR
     ELSE IF ~Pos(mf) THEN NONPOS_FLUX
     ELSE IF ~Pos(mt) THEN NONPOS_SIZE ELSE 0
FluxFlags(e, ans(_)) ==
  OrBits(If(FluxSum(e, ans) <= 0, NONPOS_FLUX), If(FluxVarSum(e, ans) <= 0, NONPOS_VAR))
TFlags(e, fac(_, _), ans(_)) ==
  IF ~VarPos(e, fac, ans, 5) \/ ~VarPos(e, fac, ans, 6) THEN NONPOS_VAR
  ELSE IF ~Pos(SumM(e, fac, ans, 6)) THEN NONPOS_FLUX ELSE 0

(* regularised size: MT + Treg * MF, Treg in 1e-3 units *)
RegT(e) == QAdd(SumM(e, ObjFac, Obj, 5), QMul(Q(e.treg, 1000), SumM(e, ObjFac, Obj, 6)))
RegVarPos(e, i) == VarPos(e, ObjFac, Obj, i)
                   \/ (i = 5 /\ e.treg > 0 /\ VarPos(e, ObjFac, Obj, 6))
ObjMom(e) ==
  LET plain == MomFlags(e, ObjFac, Obj, SumM(e, ObjFac, Obj, 5))
      reg == IF \E i \in 1..6 : ~RegVarPos(e, i) THEN NONPOS_VAR
             ELSE IF ~Pos(SumM(e, ObjFac, Obj, 6)) THEN NONPOS_FLUX
             ELSE IF ~Pos(RegT(e)) THEN NONPOS_SIZE ELSE 0
  IN OrBits(IF e.treg > 0 THEN OrBits(plain, reg) ELSE plain, FluxFlags(e, Obj))
PsfMom(e) == OrBits(MomFlags(e, PsfFac, Psf, SumM(e, PsfFac, Psf, 5)), FluxFlags(e, Psf))

PsfFlags(e) == IF PsfPre(e) # 0 THEN PsfPre(e) ELSE PsfMom(e)
ObjFlags(e) == OrBits(IF ObjPre(e) # 0 THEN ObjPre(e) ELSE ObjMom(e),
                      If(PsfFlags(e) # 0, PSF_FAILURE))
FluxFlagsOf(e, b) == IF NoBands(e) THEN MISSING_BAND ELSE FluxBand(e.bands[b], e.symm)
AllFlags(e) == OrBits(ObjFlags(e), OrSet({FluxFlagsOf(e, b) : b \in DOMAIN e.bands}))
=============================================================================
