------------------------------ MODULE LsstRun ------------------------------
(***************************************************************************)
(* Runs on multi-band exposures: metadetection and photometry (properties  *)
(* L13 and L02).                                                           *)
(*                                                                         *)
(* A run has bands with a variance map each, PSF shapes found by the       *)
(* fitter (or a failure), optionally masked-fraction maps and OR-masks,    *)
(* and for every metacal type the sources the detection finds.             *)
(* Positions are PSM times, matrices MSM times, masked fractions FRM times.*)
(***************************************************************************)
EXTENDS Measure

MSM == 4
FRM == 8
PSF_FAILURE == 2097152
UNIT == 240         \* a common multiple of twice the medians in use

Settings == {"stamp_size", "deblender", "shear_bands", "thresh", "types", "reconv", "subtract_sky", "fwhm"}

(* ---- band weights: inverse median of the usable variances ---- *)
FinitePositive(g) == SelectSeq(Flat(g), LAMBDA v : IsNum(v) /\ v > 0)
WeightOf(g) == UNIT \div Median2(FinitePositive(g))

(* ---- masked fraction ---- *)
MeanMap(maps, wts) ==
  [i \in DOMAIN maps[1] |-> [j \in DOMAIN maps[1][1] |->
     SumSeq([b \in DOMAIN maps |-> wts[b] * maps[b][i][j]])]]
AnyMasked(g) == \E i \in DOMAIN g : \E j \in DOMAIN g[i] : g[i][j] > 0
(* Gaussian of full width 1.2 at half maximum, as a function of the squared
   distance in units of 1 / (PSM * MSM)^2: 4000 times, as a product *)
GCoarse == <<
  4000, 3546, 3144, 2788, 2472, 2192, 1943, 1723, 1527, 1354, 1201, 1065,
  944, 837, 742, 658, 583, 517, 459, 407, 360, 320, 283, 251, 223, 197,
  175, 155, 138, 122, 108, 96, 85, 75, 67, 59, 53, 47, 41, 37, 32, 29, 26,
  23, 20, 18, 16, 14, 12, 11, 10, 9, 8, 7, 6, 5, 5, 4, 4, 3, 3, 3, 2, 2, 2,
  2, 1, 1, 1, 1, 1, 1, 1, 1, 1 >>
GFine == <<
  10000, 9981, 9962, 9944, 9925, 9906, 9888, 9869, 9851, 9832, 9814, 9795,
  9777, 9759, 9740, 9722, 9704, 9685, 9667, 9649, 9631, 9613, 9595, 9577,
  9559, 9541, 9523, 9505, 9487, 9469, 9452, 9434, 9416, 9398, 9381, 9363,
  9345, 9328, 9310, 9293, 9275, 9258, 9241, 9223, 9206, 9189, 9171, 9154,
  9137, 9120, 9103, 9086, 9069, 9051, 9034, 9018, 9001, 8984, 8967, 8950,
  8933, 8916, 8900, 8883 >>
GWeight(q) == LET h == q \div 64 IN
  IF h >= Len(GCoarse) THEN 0 ELSE (GCoarse[h + 1] * GFine[(q % 64) + 1] + 5000) \div 10000
RADIUS == 3          \* five standard deviations, rounded
(* squared length of a pixel offset (PSM times), the sky matrix being conformal *)
SkySq(m, dx, dy) == (m[1] * m[1] + m[2] * m[2]) * (dx * dx + dy * dy)
Near8(p, o) == (p - PSM * o + PSM \div 2) \div PSM      \* nearest pixel, in the frame
(* sum of weights and weighted sum of the map around a position *)
RECURSIVE GaussAcc(_, _, _, _, _, _)
GaussAcc(g, m, lx, ly, cells, acc) ==
  IF cells = << >> THEN acc
  ELSE LET c == Head(cells)
           q == SkySq(m, PSM * c[1] - lx, PSM * c[2] - ly)
           w == IF q < RADIUS * RADIUS * 1024 THEN GWeight(q) ELSE 0
       IN GaussAcc(g, m, lx, ly, Tail(cells), << acc[1] + w, acc[2] + w * g[c[2] + 1][c[1] + 1] >>)
WindowCells(ix, iy, nx, ny) ==
  LET xs == SelectSeq([k \in 1..(2 * RADIUS + 1) |-> ix - RADIUS + k - 1], LAMBDA v : v >= 0 /\ v < nx)
      ys == SelectSeq([k \in 1..(2 * RADIUS + 1) |-> iy - RADIUS + k - 1], LAMBDA v : v >= 0 /\ v < ny)
  IN FlattenSeq_([i \in DOMAIN ys |-> [j \in DOMAIN xs |-> << xs[j], ys[i] >>]])
(* position p in the image whose frame starts at (ox, oy) *)
MaskedFraction(g, denom, m, p, ox, oy) ==
  IF ~AnyMasked(g) THEN << 0, 1 >>
  ELSE LET nx == Len(g[1]) ny == Len(g)
           cells == WindowCells(Near8(p[1], ox), Near8(p[2], oy), nx, ny)
           a == GaussAcc(g, m, p[1] - PSM * ox, p[2] - PSM * oy, cells, << 0, 0 >>)
       IN IF cells = << >> THEN << 1, 1 >> ELSE Q(a[2], a[1] * denom)

(* ---- OR-mask ---- *)
OrMaskAt(masks, p, ox, oy) ==
  OrSeq([k \in DOMAIN masks |-> masks[k][Near8(p[2], oy) + 1][Near8(p[1], ox) + 1]])

(* ---- PSF summary over the shear bands (zero-based indices) ---- *)
ShearBands(names, req) == SelectSeq([i \in DOMAIN names |-> i - 1],
                                    LAMBDA i : req = << >> \/ names[i + 1] \in RangeOf(req))
Known_(names, req) == \A b \in RangeOf(req) : b \in RangeOf(names)
MeanOver(bands, wts, vals) ==
  Q(SumSeq([k \in DOMAIN bands |-> wts[bands[k] + 1] * vals[bands[k] + 1]]),
    SumSeq([k \in DOMAIN bands |-> wts[bands[k] + 1]]))
(* shapes are 1000 times; a mean distortion of one or more cannot be a shear *)
FitsFine(psf) == \A b \in DOMAIN psf : psf[b].flags = 0
ShapeFine(e1, e2) == LET a == Scaled(e1, 1) b == Scaled(e2, 1) IN a * a + b * b < 1000 * 1000
(* e = 2 g / (1 + g^2), both 1000 times; to about two units *)
SameShape(e1, e2, g1, g2) ==
  LET n == 1000000 + g1 * g1 + g2 * g2
  IN /\ g1 * g1 + g2 * g2 < 1000000
     /\ Abs(Scaled(e1, 1) * (n \div 1000) - 2000 * g1) <= 4000
     /\ Abs(Scaled(e2, 1) * (n \div 1000) - 2000 * g2) <= 4000
Kernel(reconv, fine) == IF reconv = "fitgauss" /\ fine THEN "fitgauss" ELSE "gauss"

(* ---- overrides: settings are pairs <<path, value>> ---- *)
Override(base, over) ==
  [i \in DOMAIN base |->
     LET k == {j \in DOMAIN over : over[j][1] = base[i][1]}
     IN IF k = {} THEN base[i] ELSE << base[i][1], over[CHOOSE j \in k : TRUE][2] >>]
AllNamed(base, over) == \A j \in DOMAIN over : \E i \in DOMAIN base : base[i][1] = over[j][1]
=============================================================================
