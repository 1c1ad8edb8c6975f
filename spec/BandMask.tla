------------------------------ MODULE BandMask ------------------------------
(***************************************************************************)
(* Edge and bright star masking of multi-band exposures (property L03).    *)
(*                                                                         *)
(* A step is [what : "edge" | "bright", stars].  A star is [x, y, r] in    *)
(* quarter pixels of the sky map's own frame, in which the exposures have  *)
(* their corner at (ox, oy).                                               *)
(* Products: the exposures of each band, and optionally their noise        *)
(* exposures, masked fraction exposures, and a list of OR masks.           *)
(***************************************************************************)
EXTENDS Masking

AP == 6             \* apodisation scale, quarter pixels
EXPAND == 64        \* the bright masks grow by this, quarter pixels

Local(stars, ox, oy) == [i \in DOMAIN stars |->
  [x |-> stars[i].x - 4 * ox, y |-> stars[i].y - 4 * oy, r |-> stars[i].r]]
OpOf(step, ox, oy) == [what |-> IF step.what = "edge" THEN "edge" ELSE "apodize",
                       holes |-> Local(step.stars, ox, oy), sym |-> 0, h |-> AP]
(* pixels which are apodised *)
HitBy(step, ox, oy, nr, nc) == Zone(OpOf(step, ox, oy), nr, nc)
(* pixels of the grown mask *)
GrownBy(step, ox, oy, nr, nc, expand) ==
  IF step.what = "edge" THEN {} ELSE Disc(Grown(Local(step.stars, ox, oy), expand), nr, nc)
MaskedBits(step, Z, G, p, bits, old) ==
  LET a == IF p \in Z THEN OrBits(old, IF step.what = "edge" THEN bits.edge ELSE bits.bright) ELSE old
  IN IF p \in G THEN OrBits(a, bits.expanded) ELSE a
=============================================================================
