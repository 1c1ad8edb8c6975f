------------------------------ MODULE Detect ------------------------------
(***************************************************************************)
(* Detection and stamps of one set of images: the detection image, the box *)
(* of every detected object, and the stamps cut for it.                    *)
(* Positions are in quarter pixels.                                        *)
(***************************************************************************)
EXTENDS Stamps

Allowed == {2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768, 1024,
            1536, 2048, 3072, 4096, 6144}

(* ---- what the detector is given ---- *)
(* a band is [w, im, bm (<< >> if it has no mask)] *)
W2s(bands) == Map(LAMBDA b : PosMedian2(b.w), bands)
DetImageAt(bands, i, j) ==
  LET w == W2s(bands)
  IN Q(SumSeq([b \in DOMAIN bands |-> w[b] * bands[b].im[i][j]]), SumSeq(w))
(* noise variance of the average: the inverse of the total weight *)
DetVar(bands) == Q(2, SumSeq(W2s(bands)))
IgnoredAt(bands, nodet, i, j) ==
  \E b \in DOMAIN bands : bands[b].bm # << >> /\ AndBits(bands[b].bm[i][j], nodet) # 0

(* ---- box sizes ---- *)
(* m : [type, min, max, rmin4, rfac2, pad, sfac], o : [rad4, fr4, a, b, dy, dx]
   radii in quarters of a pixel, the radius factor in halves *)
RadSize(m, o) ==      \* what the radius requires, truncated to an integer
  ((2 * m.rfac2 * Max2(o.rad4, m.rmin4)) + (8 * m.pad)) \div 8
(* the "sigma" size is twice a rounded up radius; 0.8493218 = 2 / (2 sqrt(2 ln 2)) *)
SigmaRad4(m, o) ==    \* that radius in 1e-4 pixels
  LET v == Scaled(Q(o.fr4 * m.sfac * (2 * o.a - o.b), 4 * o.a), 10000)
  IN (((v \div 1000) * 849322) \div 1000) + (((v % 1000) * 849322) \div 1000000)
SigmaSizes(m, o) ==   \* both neighbours where the radius is an integer up to rounding
  {2 * ((SigmaRad4(m, o) + d + 9999) \div 10000) : d \in {-12, 0, 12}}
Wanted(m, o) ==
  IF m.type = "iso_radius" THEN {RadSize(m, o)}
  ELSE {MaxSet({s, o.dy + 1, o.dx + 1}) : s \in SigmaSizes(m, o)}
Bins(m) == {s \in Allowed : m.min <= s /\ s <= m.max} \cup {m.max}
BoxFor(m, want) == MinSet({s \in Bins(m) : s >= Clip(want, m.min, m.max)})
Boxes(m, o) == {BoxFor(m, w) : w \in Wanted(m, o)}

(* ---- stamps ---- *)
End(p4, B, dim) == EndOf(TruncQ(<<p4, 4>>), B, dim)
Start(p4, B) == StartOf(TruncQ(<<p4, 4>>), B)
Default(plane) == CASE plane = "bm" -> EDGE [] OTHER -> 0
Stamp(g, nr, nc, y4, x4, B, plane) == StampOf(g, nr, nc, Start(y4, B), Start(x4, B), B, Default(plane))
=============================================================================
