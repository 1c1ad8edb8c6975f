------------------------------ MODULE Stamps ------------------------------
(***************************************************************************)
(* Postage stamps.  An object at a position with a box size B has a square *)
(* stamp of B x B pixels whose corner is at the truncated position minus   *)
(* half the box plus one, moved up to zero where that is negative.  What   *)
(* the image does not cover is filled with the default of the plane.       *)
(***************************************************************************)
EXTENDS Common

EDGE == 1073741824            \* the edge bit, 2^30

TruncQ(q) == IF q[1] >= 0 THEN q[1] \div q[2] ELSE -((-q[1]) \div q[2])
EndOf(t, B, dim) == Min2(dim, t + (B \div 2) + 1)      \* one past the last pixel
StartOf(t, B) == Max2(0, t - (B \div 2) + 1)

(* number of image pixels along one axis *)
Cover(dim, start, B) == Clip(dim - start, 0, B)

StampOf(g, nr, nc, r0, c0, B, def) ==
  [i \in 1..B |-> [j \in 1..B |->
     IF r0 + i <= nr /\ c0 + j <= nc THEN g[r0 + i][c0 + j] ELSE def]]

(* zero weight wherever one of the four quarter-turn rotations is zero *)
SymWeight(w) ==
  LET n == Len(w)
  IN [i \in 1..n |-> [j \in 1..n |->
       IF w[i][j] <= 0 \/ w[j][n + 1 - i] <= 0
          \/ w[n + 1 - i][n + 1 - j] <= 0 \/ w[n + 1 - j][i] <= 0
       THEN 0 ELSE w[i][j]]]

AnyPositive(w) == \E i \in DOMAIN w : \E j \in DOMAIN w[i] : w[i][j] > 0
PosMedian2(w) == Median2(Positive(Flat(w)))     \* twice the positive median

(* Gaussian weight of fwhm 2 pixels, 2^(-r^2), as an integer over 2^10; the
   neglected tail is below 4e-4 of the total as long as the centre is covered *)
(* the same for a fwhm of 1.2 pixels (the default width), over 10^6 *)
G12(dr, dc) ==
  LET r2 == dr * dr + dc * dc
  IN CASE r2 = 0 -> 1000000 [] r2 = 1 -> 145816 [] r2 = 2 -> 21262 [] r2 = 4 -> 452
       [] r2 = 5 -> 66 [] OTHER -> 0
(* the same for a fwhm of one pixel, 2^(-4r^2) *)
G1P(dr, dc) ==
  LET r2 == dr * dr + dc * dc
  IN CASE r2 = 0 -> 4096 [] r2 = 1 -> 256 [] r2 = 2 -> 16 [] OTHER -> 0
G2(dr, dc) == LET r2 == dr * dr + dc * dc IN IF r2 > 10 THEN 0 ELSE Pow(2, 10 - r2)
=============================================================================
