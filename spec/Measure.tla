------------------------------ MODULE Measure ------------------------------
(***************************************************************************)
(* Measurement of a source list (property L04).                            *)
(*                                                                         *)
(* A source is [id, nchild, peak : <<x, y>>, cen : position times PS or    *)
(* << >> when no centroid could be found].  A frame or box is              *)
(* <<x, y, width, height>>.  Only childless sources are measured.  Each    *)
(* gets one row; a source whose stamp leaves the image or holds a band     *)
(* without usable variance is kept, with the reason.                       *)
(***************************************************************************)
EXTENDS Subtract

PSM == 8
NO_ATTEMPT == 1
EDGE_HIT == 1048576
ZERO_WEIGHTS == 33554432

StampBox(pk, size) == LET h == size \div 2 IN << pk[1] - h, pk[2] - h, 2 * h + 1, 2 * h + 1 >>
Within(b, fr) == /\ b[1] >= fr[1] /\ b[2] >= fr[2]
                 /\ b[1] + b[3] <= fr[1] + fr[3] /\ b[2] + b[4] <= fr[2] + fr[4]
CropTo(g, fr, bx) == [i \in 1..bx[4] |-> [j \in 1..bx[3] |-> g[bx[2] - fr[2] + i][bx[1] - fr[1] + j]]]

(* variances: positive numbers are usable; the weight is the inverse of their median *)
UsableVars(g) == SelectSeq(Flat(g), LAMBDA v : v # NAN /\ v # NINF /\ v > 0)
NoWeight(g) == LET u == UsableVars(g) IN u = << >> \/ KthSmallest(u, (Len(u) \div 2) + 1) = INF

Fate(s, size, fr, vars) ==
  IF s.nchild > 0 THEN "parent"
  ELSE LET b == StampBox(s.peak, size)
       IN IF ~Within(b, fr) THEN "edge"
          ELSE IF \E k \in DOMAIN vars : NoWeight(CropTo(vars[k], fr, b)) THEN "zero"
          ELSE "ok"

(* positions in the image, times PSM *)
PeakPos(s) == << PSM * s.peak[1], PSM * s.peak[2] >>
Pos(s) == IF s.cen = << >> THEN PeakPos(s) ELSE s.cen
OffPeak(s) == IF s.cen = << >> THEN << NAN, NAN >>
              ELSE << s.cen[1] - PSM * s.peak[1], s.cen[2] - PSM * s.peak[2] >>
(* the sky in units of 1 / (PSM * 4) arc second from the origin of the coordinates *)
SkyOf(p, w) == << w.m[1] * (p[1] - PSM * w.x) + w.m[2] * (p[2] - PSM * w.y),
                  w.m[3] * (p[1] - PSM * w.x) + w.m[4] * (p[2] - PSM * w.y) >>
SumGrid(g) == SumSeq(Map(SumSeq, g))
=============================================================================
