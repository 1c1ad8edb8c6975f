------------------------------ MODULE Masking ------------------------------
(***************************************************************************)
(* Foreground masks, apodisation masks, and the corrections which apply    *)
(* them to multi-band observations (properties K01, K02, K03).             *)
(*                                                                         *)
(* A hole is [x, y, r] in quarter pixels; pixel (r, c) has its centre at   *)
(* (4r, 4c).  Apodisation scale h is in quarter pixels.  Mask values are   *)
(* fixed point, one = S.                                                   *)
(***************************************************************************)
EXTENDS Common

S == 30000

(* ---- discs ---- *)
Dist2(h, r, c) == (4 * r - h.y) * (4 * r - h.y) + (4 * c - h.x) * (4 * c - h.x)
InHole(h, r, c) == Dist2(h, r, c) < h.r * h.r
Disc(hs, nr, nc) ==
  {p \in (0..(nr - 1)) \X (0..(nc - 1)) : \E i \in DOMAIN hs : InHole(hs[i], p[1], p[2])}
(* the quarter turn of an n by n image takes the value at (c, n-1-r) to (r, c) *)
Turned(p, n) == <<p[2], n - 1 - p[1]>>
Marked(hs, nr, nc, sym) ==
  LET D == Disc(hs, nr, nc)
  IN IF sym = 0 THEN D
     ELSE D \cup {p \in (0..(nr - 1)) \X (0..(nc - 1)) : Turned(p, nr) \in D}
Grown(hs, e) == [i \in DOMAIN hs |-> [hs[i] EXCEPT !.r = @ + e]]

(* ---- the cumulative triweight kernel, in u = y / 3 = num / den ---- *)
Mul(a, b) == (a * b) \div S
KernU(u) == LET u2 == Mul(u, u) u3 == Mul(u2, u) u5 == Mul(u3, u2) u7 == Mul(u5, u2)
            IN (S \div 2) + ((35 * u - 35 * u3 + 21 * u5 - 5 * u7) \div 32)
Kern(num, den) == IF num < -den THEN 0 ELSE IF num > den THEN S
                  ELSE KernU((num * S) \div den)

(* ---- edges ---- *)
ApRange(h) == (6 * h + 2) \div 4               \* int(6 h + 1/2)
EdgeKern(h, x) == Kern(4 * (x - ApRange(h)) + 3 * h, 3 * h)
EdgeProfile(h, n, x) == Mul(EdgeKern(h, x), EdgeKern(h, n - 1 - x))
EdgeMask(h, nr, nc, r, c) == Mul(EdgeProfile(h, nr, r), EdgeProfile(h, nc, c))

(* ---- holes ---- *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, 46340)
ZOOM == 800              \* radii up to 57 quarter pixels fit
HoleKern(hole, h, r, c) ==
  LET d == ISqrt(Dist2(hole, r, c) * ZOOM * ZOOM)
  IN IF ~InHole(hole, r, c) THEN S
     ELSE Kern(d - ZOOM * hole.r + 3 * ZOOM * h, 3 * ZOOM * h)
RECURSIVE HoleMask1(_, _, _, _, _)
HoleMask1(hs, i, h, r, c) == IF i > Len(hs) THEN S
                             ELSE Mul(HoleKern(hs[i], h, r, c), HoleMask1(hs, i + 1, h, r, c))
HoleMask(hs, h, n, sym, r, c) ==
  IF sym = 0 THEN HoleMask1(hs, 1, h, r, c)
  ELSE Mul(HoleMask1(hs, 1, h, r, c),
           LET t == Turned(<<r, c>>, n) IN HoleMask1(hs, 1, h, t[1], t[2]))

(* ---- corrections of the observations ---- *)
(* An operation is [what : "edge" | "apodize" | "interp" | "interp-noise", *)
(*   holes, sym, h, bit, ibit, expand, ebit].                              *)
(* Affected: pixels the operation touches.  For a mask-like operation this *)
(* is where the mask is below one.                                         *)
MaskOf(op, nr, nc) ==
  [r \in 0..(nr - 1) |-> [c \in 0..(nc - 1) |->
     IF op.what = "edge" THEN EdgeMask(op.h, nr, nc, r, c)
     ELSE IF op.what = "apodize" THEN HoleMask(op.holes, op.h, nr, op.sym, r, c)
     ELSE S]]
(* where a mask is certainly below one: the zone, exactly *)
EdgeZone(h, n, x) == x < ApRange(h) \/ (n - 1 - x) < ApRange(h)
Zone(op, nr, nc) ==
  IF op.what = "edge"
  THEN {p \in (0..(nr - 1)) \X (0..(nc - 1)) : EdgeZone(op.h, nr, p[1]) \/ EdgeZone(op.h, nc, p[2])}
  ELSE Marked(op.holes, nr, nc, op.sym)
IsInterp(op) == op.what \in {"interp", "interp-noise"}
Everything(nr, nc) == (0..(nr - 1)) \X (0..(nc - 1))

BitsAfter(op, nr, nc, Z, r, c, old) ==
  LET hit == <<r, c>> \in Z
      all == Z = Everything(nr, nc)
      a == IF hit THEN OrBits(old, op.bit) ELSE old
      b == IF hit /\ IsInterp(op) /\ ~all THEN OrBits(a, op.ibit) ELSE a
  IN IF op.what # "edge" /\ op.expand > 0
        /\ <<r, c>> \in Marked(Grown(op.holes, op.expand), nr, nc, op.sym)
     THEN OrBits(b, op.ebit) ELSE b
WeightAfter(Z, r, c, old) == IF <<r, c>> \in Z THEN 0 ELSE old
MfracAfter(Z, r, c, old, one) == IF <<r, c>> \in Z THEN one ELSE old
=============================================================================
