------------------------------ MODULE Exposure ------------------------------
(***************************************************************************)
(* Exposures, observations made from them, coadds and stamps (properties   *)
(* L08, L09, L10, L12).                                                    *)
(*                                                                         *)
(* An exposure is [x, y : its origin in the frame of the sky map,          *)
(*   im, var, mask : rows of pixels, m : <<m00, m01, m10, m11>> ].         *)
(* var holds VS times the variance, INF or NAN; m holds MS times the       *)
(* matrix which takes pixel offsets to sky offsets; positions are PS times *)
(* the position.                                                           *)
(***************************************************************************)
EXTENDS Common
VS == 4
MS == 4
PS == 8

H(e) == NRow(e.im)
W(e) == NCol(e.im)
Grid(h, w, f(_, _)) == [i \in 1..h |-> [j \in 1..w |-> f(i, j)]]

(* ---- weights ---- *)
UsableVar(v) == v = INF \/ (IsNum(v) /\ v > 0)
InvVar(v) == IF IsNum(v) /\ v > 0 THEN Q(VS, v) ELSE QI(0)
UsableVars(e) == SelectSeq(Flat(e.var), UsableVar)
(* median of a sequence that may hold INF; INF or a rational *)
MedianInf(s) ==
  LET n == Len(s)
      a == KthSmallest(s, (n + 1) \div 2)
      b == KthSmallest(s, n \div 2 + 1)
  IN IF a = INF \/ b = INF THEN << INF, 1 >> ELSE Q(a + b, 2)
NoneUsable(e) == UsableVars(e) = << >>
(* inverse of the median usable variance; zero if that is infinite, or if there
   is none *)
MedWeight(e) == IF NoneUsable(e) THEN QI(0)
                ELSE LET m == MedianInf(UsableVars(e))
                     IN IF m[1] = INF THEN QI(0) ELSE QMul(QI(VS), QInv(m))

(* ---- frames ---- *)
(* dudcol, dudrow, dvdcol, dvdrow of the local frame, times MS *)
Frame(m) == << m[4], -m[3], m[2], -m[1] >>
(* the integer pixel at the centre of a box *)
MidOf(origin, n) == origin + n \div 2
Rel(e, p) == << p[1] - PS * e.x, p[2] - PS * e.y >>

(* ---- conversions: exposures and observations as two forms of one image ----
   form "exp": [form, im, var, mask]; form "obs": [form, im, w, bm, om] with
   weights as rationals *)
ZeroGrid(g) == Grid(NRow(g), NCol(g), LAMBDA i, j : 0)
MapGrid(f(_), g) == [i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> f(g[i][j])]]
VarOfWeight(q) == IF q[1] > 0 THEN (VS * q[2]) \div q[1] ELSE INF   \* exact for the codes in use
AsObs(x, to) ==
  [form |-> "obs", im |-> x.im, w |-> MapGrid(InvVar, x.var),
   bm |-> IF to = "bmask" THEN x.mask ELSE ZeroGrid(x.mask),
   om |-> IF to = "ormask" THEN x.mask ELSE ZeroGrid(x.mask)]
AsExp(o, from) ==
  [form |-> "exp", im |-> o.im, var |-> MapGrid(VarOfWeight, o.w),
   mask |-> IF from = "ormask" THEN o.om ELSE o.bm]
Convert(s, which) == IF s.form = "exp" THEN AsObs(s, which) ELSE AsExp(s, which)
RECURSIVE Chain(_, _)
Chain(s, steps) == IF steps = << >> THEN s ELSE Chain(Convert(s, Head(steps)), Tail(steps))

(* ---- boxes ---- *)
Side(s) == 2 * (s \div 2) + 1
StampBox(p, s) == [x |-> p[1] - s \div 2, y |-> p[2] - s \div 2, w |-> Side(s), h |-> Side(s)]
Inside(b, B) == /\ b.x >= B.x /\ b.y >= B.y
                /\ b.x + b.w <= B.x + B.w /\ b.y + b.h <= B.y + B.h
ClipTo(b, B) ==
  LET x0 == Max2(b.x, B.x) y0 == Max2(b.y, B.y)
      x1 == Min2(b.x + b.w, B.x + B.w) y1 == Min2(b.y + b.h, B.y + B.h)
  IN [x |-> x0, y |-> y0, w |-> x1 - x0, h |-> y1 - y0]
Refused(p, s, clip, B) == clip = 0 /\ ~Inside(StampBox(p, s), B)
BoxFor(p, s, clip, B) == IF clip = 1 THEN ClipTo(StampBox(p, s), B) ELSE StampBox(p, s)
SubGrid(g, e, b) == Grid(b.h, b.w, LAMBDA i, j : g[i + b.y - e.y][j + b.x - e.x])

(* ---- selection of bands; positions are zero based ---- *)
AllKnown(bands, want) == \A i \in DOMAIN want : want[i] \in RangeOf(bands)
Selected(bands, want) ==
  LET s == RangeOf(want)
      idx == [i \in DOMAIN bands |-> i - 1]
  IN IF want = << >> THEN idx ELSE SelectSeq(idx, LAMBDA i : bands[i + 1] \in s)

(* ---- trimming to a centred odd square ---- *)
TrimRefused(h, w) == h # w /\ (h % 2 = 0 \/ w % 2 = 0)
TrimSide(h, w) == Min2(h, w)
TrimAt(n, side) == (n - side) \div 2

(* ---- coadds of exposures ---- *)
Ws(es) == Map(MedWeight, es)
WTot(es) == SumSeqQ(Ws(es))
UsedAt(es, i, j) == {n \in DOMAIN es : UsableVar(es[n].var[i][j])}
SumOver(es, S, f(_)) == SumSeqQ([n \in DOMAIN es |-> IF n \in S THEN f(n) ELSE QI(0)])
FluxSum(es, i, j) == SumOver(es, UsedAt(es, i, j), LAMBDA n : QMul(Ws(es)[n], QI(es[n].im[i][j])))
(* weighted mean over the exposures usable at the pixel; where only some are,
   the mean may instead be taken with the total weight *)
CoaddAt(es, i, j) ==
  LET U == UsedAt(es, i, j)
      wu == SumOver(es, U, LAMBDA n : Ws(es)[n])
      f == FluxSum(es, i, j)
  IN {QDiv(f, WTot(es))} \cup (IF wu[1] > 0 THEN {QDiv(f, wu)} ELSE {})
InvVarSum(es, i, j) == SumOver(es, UsedAt(es, i, j), LAMBDA n : InvVar(es[n].var[i][j]))
MaskOr(es, i, j) == OrSeq([n \in DOMAIN es |-> es[n].mask[i][j]])
(* pixel (i, j) of the coadd's PSF, which is normalised *)
PsfSum(ws, ps, i, j) == SumSeqQ([n \in DOMAIN ps |-> QMul(ws[n], QI(ps[n][i][j]))])
PsfAt(ws, ps, i, j) ==
  QDiv(PsfSum(ws, ps, i, j),
       SumSeqQ([n \in DOMAIN ps |-> QMul(ws[n], QI(SumSeq(Flat(ps[n]))))]))
=============================================================================
