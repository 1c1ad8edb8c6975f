------------------------------- MODULE Coadd -------------------------------
(***************************************************************************)
(* Coadding the bands of one object.  A band is                            *)
(*  [n : observations in it, w : weights, edge : 0/1, im : image,          *)
(*   mf, no, bm, om : masked fraction, noise, masks (<< >> : no such plane),  *)
(*   psf : PSF image (<< >> : no PSF), jac, pjac : coordinate systems]        *)
(* shear is a sequence of zero-based band numbers.                         *)
(***************************************************************************)
EXTENDS Wavg

Band0(e, s) == e.bands[s + 1]
Listed(e) == Map(LAMBDA s : Band0(e, s), e.shear)       \* in listed order
Exists(e) == \A i \in DOMAIN e.shear : e.shear[i] < Len(e.bands)
Plane(bd, p) == CASE p = "im" -> bd.im [] p = "mf" -> bd.mf [] p = "no" -> bd.no
                  [] p = "bm" -> bd.bm [] p = "om" -> bd.om [] p = "psf" -> bd.psf
Has(bd, p) == Plane(bd, p) # << >>
Shape(g) == <<NRow(g), NCol(g)>>

Alike(a, b) ==
  /\ a.jac = b.jac /\ Shape(a.im) = Shape(b.im)
  /\ Has(a, "psf") /\ Has(b, "psf")
  /\ a.pjac = b.pjac /\ Shape(a.psf) = Shape(b.psf)

Single(e) == Len(e.bands) = 1 \/ Len(e.shear) = 1
(* usable where every band is *)
Usable(e, i, j) == \A n \in DOMAIN e.shear : Band0(e, e.shear[n]).w[i][j] > 0
AnyUsable(e) == LET g == Listed(e)[1].w
                IN \E i \in DOMAIN g : \E j \in DOMAIN g[i] : Usable(e, i, j)
Mixed(e, p) == /\ \E n \in DOMAIN e.shear : Has(Band0(e, e.shear[n]), p)
               /\ \E n \in DOMAIN e.shear : ~Has(Band0(e, e.shear[n]), p)

(* refusal reasons in order of precedence *)
CoaddFlags(e) ==
  IF ~Exists(e) THEN INCONSISTENT
  ELSE IF Single(e) THEN 0
  ELSE IF \E n \in DOMAIN e.shear : ~Alike(Listed(e)[1], Listed(e)[n]) THEN INCONSISTENT
  ELSE IF \E n \in DOMAIN e.shear : ~AnyPositive(Listed(e)[n].w) THEN ZERO_WEIGHTS
  ELSE IF ~AnyUsable(e) THEN ZERO_WEIGHTS
  ELSE IF \E p \in {"mf", "no", "bm", "om"} : Mixed(e, p) THEN INCONSISTENT
  ELSE 0

Meds(e) == Map(LAMBDA bd : PosMedian2(bd.w), Listed(e))    \* twice the medians
(* weighted mean of a plane at a pixel *)
MeanAt(e, p, i, j) ==
  LET m == Meds(e) bs == Listed(e)
  IN Q(SumSeq([n \in DOMAIN bs |-> m[n] * Plane(bs[n], p)[i][j]]), SumSeq(m))
OrAt(e, p, i, j) == OrSeq([n \in DOMAIN e.shear |-> Plane(Listed(e)[n], p)[i][j]])
WeightAt(e, i, j) ==
  LET m == Meds(e) bs == Listed(e)
  IN IF ~Usable(e, i, j) THEN QI(0)
     ELSE QDiv(QI(SumSeq(m) * SumSeq(m)),
               SumSeqQ([n \in DOMAIN bs |-> Q(m[n] * m[n], bs[n].w[i][j])]))

(* what a single band or the coadd shows at a pixel *)
ValAt(e, p, i, j) == IF Single(e) THEN QI(Plane(Listed(e)[1], p)[i][j]) ELSE MeanAt(e, p, i, j)
WgtAt(e, i, j) == IF Single(e) THEN QI(Listed(e)[1].w[i][j]) ELSE WeightAt(e, i, j)
(* metadata: of the observation, of its band and of the object; the later   *)
(* one wins.  A single band is used as it is.                              *)
RECURSIVE MetaOf(_, _)
MetaOf(e, n) == IF n > Len(e.shear) THEN e.wmeta
                ELSE Listed(e)[n].meta \o Listed(e)[n].lmeta \o MetaOf(e, n + 1)
RECURSIVE PsfMetaOf(_, _)
PsfMetaOf(e, n) == IF n > Len(e.shear) THEN << >> ELSE Listed(e)[n].pmeta \o PsfMetaOf(e, n + 1)
Merged(s) == {s[i] : i \in {i \in DOMAIN s : \A j \in DOMAIN s : j > i => s[j].k # s[i].k}}
MetaWant(e) == Merged(IF Single(e) THEN Listed(e)[1].meta ELSE MetaOf(e, 1))
PsfMetaWant(e) == Merged(IF Single(e) THEN Listed(e)[1].pmeta ELSE PsfMetaOf(e, 1))
SameShape(g, h) == Len(g) = Len(h) /\ \A i \in DOMAIN g : Len(g[i]) = Len(h[i])
=============================================================================
