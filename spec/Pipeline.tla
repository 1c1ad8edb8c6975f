----------------------------- MODULE Pipeline -----------------------------
(***************************************************************************)
(* One metadetection run.                                                  *)
(*                                                                         *)
(* cfg describes the input: image sets (set 0 is the input, the others are *)
(* colour dependent), each a sequence of bands with weight, mask, OR-mask  *)
(* and masked-fraction grids (quarters) and the outcome of its PSF fit;    *)
(* whether metacal succeeds per set; the objects visible in the images of  *)
(* every shear type; band combinations; colour keys.                       *)
(*                                                                         *)
(* The dynamic part (Monitor) says which environment calls - PSF fits,     *)
(* metacal runs, calls of the colour function - may happen when.  The      *)
(* static part says which catalogue must come out.                         *)
(***************************************************************************)
EXTENDS ShearPos, Stamps

PSF_FAILURE == 2097152          \* 2^21

(* ------------------------------------------------------------------ bands *)
Band(cfg, s, b) == cfg.sets[s + 1].bands[b + 1]
NSets(cfg) == Len(cfg.sets)
Combs(cfg) == IF cfg.combs_given = 0 THEN << [b \in 1..cfg.nband |-> b - 1] >> ELSE cfg.combs
DetBands(cfg, i) ==
  CASE cfg.det_mode = "default" -> [b \in 1..cfg.nband |-> b - 1]
    [] cfg.det_mode = "shear_bands" -> Combs(cfg)[i]
    [] cfg.det_mode = "list" -> cfg.dets[i]
RECURSIVE Digits(_)
Digits(s) == IF s = << >> THEN "" ELSE ToString(Head(s)) \o Digits(Tail(s))
Label(bands) == Digits(SortInts(bands))

(* twice the weight of a band: its median positive weight *)
Wt2(bd) == LET p == Positive(Flat(bd.w)) IN IF p = << >> THEN 0 ELSE Median2(p)
BandMax(bd) == MaxSet(RangeOf(Flat(bd.w)))
HasMfrac(bd) == Len(bd.m) > 0

(* masked fraction of a list of bands: numerator and denominator of the
   weighted mean of quarters; <<4, 1>> (fully masked) without usable weight *)
MfDen(bds) == 4 * SumSeq([i \in DOMAIN bds |-> Wt2(bds[i])])
MfNumAt(bds, wts, r, c) ==
  SumSeq([i \in DOMAIN bds |-> IF HasMfrac(bds[i]) THEN wts[i] * bds[i].m[r][c] ELSE 0])
MfGrid(bds, nr, nc) ==     \* the numerators; equals the denominator if no weight
  LET wts == [i \in DOMAIN bds |-> Wt2(bds[i])]
      d == 4 * SumSeq(wts)
  IN [r \in 1..nr |-> [c \in 1..nc |-> IF d = 0 THEN 1 ELSE MfNumAt(bds, wts, r, c)]]
MfDenom(bds) == LET d == MfDen(bds) IN IF d = 0 THEN 1 ELSE d

(* ------------------------------------------------------------------ gate *)
NoWeight(bd) == \A i \in DOMAIN bd.w : \A j \in DOMAIN bd.w[i] : bd.w[i][j] = 0
AllNoDet(cfg, bd) ==
  \A i \in DOMAIN bd.b : \A j \in DOMAIN bd.b[i] : AndBits(bd.b[i][j], cfg.nodet) # 0
Unmeasurable(cfg) ==
  LET bds == cfg.sets[1].bands
      g == MfGrid(bds, cfg.nrow, cfg.ncol)
      d == MfDenom(bds)
  IN \/ \A r \in 1..cfg.nrow : \A c \in 1..cfg.ncol : g[r][c] >= d
     \/ \E i \in DOMAIN bds : NoWeight(bds[i])
     \/ \E i \in DOMAIN bds : AllNoDet(cfg, bds[i])
NoResult(cfg) == Unmeasurable(cfg) \/ cfg.sets[1].mcal = 0

(* ------------------------------------------------------------- detection *)
(* object o (zero-based pixel o.r, o.c; box size o.box; bright in o.bands; metacal images of
   the bands o.nd carry an extra no-detect flag there) *)
Visible(cfg, o, dets) ==
  /\ \E i \in DOMAIN dets : dets[i] \in RangeOf(o.bands)
  /\ ~ \E i \in DOMAIN dets :
        \/ AndBits(Cell(Band(cfg, 0, dets[i]).b, o.r, o.c), cfg.nodet) # 0
        \/ (cfg.nodet # 0 /\ dets[i] \in RangeOf(o.nd))
(* indices of the detected objects, objects being listed in raster order *)
Detected(cfg, t, dets) ==
  SelectSeq([k \in DOMAIN cfg.objs[t] |-> k],
            LAMBDA k : Visible(cfg, cfg.objs[t][k], dets))

(* ------------------------------------------------------------ provenance *)
TypeNo(t) == CASE t = "noshear" -> 0 [] t = "1p" -> 1 [] t = "1m" -> 2 [] t = "2p" -> 3
               [] t = "2m" -> 4 [] t = "1p_psf" -> 5 [] t = "1m_psf" -> 6
               [] t = "2p_psf" -> 7 [] t = "2m_psf" -> 8
(* the flux at an object's pixel names set, type, band and object *)
Code(s, t, b, k) == 10000 + 10000 * s + 300 * TypeNo(t) + 30 * b + 3 * k

(* the input images show an object only in its own bands *)
FluxAt(cfg, s, t, b, k) ==
  IF s > 0 \/ b \in RangeOf(cfg.objs[t][k].bands) THEN Code(s, t, b, k) ELSE 0

(* ------------------------------------------------------------------ rows *)
(* stamp of object o in a band of a set, with symmetrised weights *)
BandState(cfg, bd, o) ==
  LET r0 == StartOf(o.r, o.box)
      c0 == StartOf(o.c, o.box)
      w == StampOf(bd.w, cfg.nrow, cfg.ncol, r0, c0, o.box, 0)
      ws == IF cfg.symmetrize = 1 THEN SymWeight(w) ELSE w
      b == StampOf(bd.b, cfg.nrow, cfg.ncol, r0, c0, o.box, EDGE)
      bad == \/ ~AnyPositive(ws)
             \/ \E i \in 1..o.box : \E j \in 1..o.box : AndBits(b[i][j], cfg.bmask_flags) # 0
  IN [bad |-> bad, w2 |-> IF bad THEN 0 ELSE PosMedian2(ws)]

(* The set on which object k of type t is measured.  The scripted colour
   function reads the object off its first positive finite flux and answers
   none (the input images) when there is not any. *)
HasFlux(cfg, t, k) ==
  \E b \in 1..cfg.nband :
     /\ FluxAt(cfg, 0, t, b - 1, k) > 0
     /\ ~BandState(cfg, Band(cfg, 0, b - 1), cfg.objs[t][k]).bad
SetOf(cfg, t, k) == IF cfg.colour = 0 THEN 0
                    ELSE IF "sel" \in DOMAIN cfg THEN cfg.sel[t][k]
                    ELSE IF cfg.keys[t][k] < 0 \/ ~HasFlux(cfg, t, k) THEN 0
                    ELSE cfg.keys[t][k]
(* the same configuration with the selection worked out once *)
Prepared(cfg) ==
  IF cfg.colour = 0 THEN cfg
  ELSE [x \in DOMAIN cfg \cup {"sel"} |->
          IF x = "sel"
          THEN [t \in RangeOf(cfg.types) |-> [k \in DOMAIN cfg.keys[t] |-> SetOf(cfg, t, k)]]
          ELSE cfg[x]]
Measured(cfg, t, dets) ==
  SelectSeq(Detected(cfg, t, dets), LAMBDA k : cfg.sets[SetOf(cfg, t, k) + 1].mcal = 1)
SetsUsed(cfg) ==
  {0} \cup UNION {UNION {{SetOf(cfg, cfg.types[ti], k) :
            k \in RangeOf(Detected(cfg, cfg.types[ti], DetBands(cfg, i)))}
         : i \in DOMAIN Combs(cfg)} : ti \in DOMAIN cfg.types}

(* mask value of a window of half-width hw around a rounded, clipped position *)
Window(cfg, grid, p, hw) ==
  LET r == Clip(QRint(p[1]), 0, cfg.nrow - 1)
      c == Clip(QRint(p[2]), 0, cfg.ncol - 1)
      h == IF hw > 1 THEN hw ELSE 0
  IN OrSeq(Flat([i \in 1..(2 * h + 1) |-> [j \in 1..(2 * h + 1) |->
       LET rr == r - h + i - 1
           cc == c - h + j - 1
       IN IF rr >= 0 /\ rr < cfg.nrow /\ cc >= 0 /\ cc < cfg.ncol
          THEN grid[rr + 1][cc + 1] ELSE 0]]))
OrGrid(cfg, bds, plane) ==
  [r \in 1..cfg.nrow |-> [c \in 1..cfg.ncol |->
     OrSeq([i \in DOMAIN bds |-> IF plane = "o" THEN bds[i].o[r][c] ELSE bds[i].b[r][c]])]]
BHalf(cfg) == IF cfg.mask_region > 1 THEN cfg.mask_region ELSE 1
OHalf(cfg) == IF cfg.ormask_region > 1 THEN cfg.ormask_region ELSE BHalf(cfg)

(* Gaussian-averaged masked fraction at position p (rational); <<n, d>> exactly
   when the position is a whole pixel, otherwise << >> *)
Whole(p) == p[1][2] = 1 /\ p[2][2] = 1
AnyMfrac(g) == \E r \in DOMAIN g : \E c \in DOMAIN g[r] : g[r][c] > 0
MfAt(cfg, g, den, p, box) ==
  LET r0 == StartOf(TruncQ(p[1]), box)
      c0 == StartOf(TruncQ(p[2]), box)
      nr == Cover(cfg.nrow, r0, box)
      nc == Cover(cfg.ncol, c0, box)
      pr == p[1][1] - r0
      pc == p[2][1] - c0
      ws == SumSeq(Flat([i \in 1..nr |-> [j \in 1..nc |-> G2(i - 1 - pr, j - 1 - pc)]]))
      vs == SumSeq(Flat([i \in 1..nr |-> [j \in 1..nc |->
                 G2(i - 1 - pr, j - 1 - pc) * g[r0 + i][c0 + j]]]))
      \* the Gaussian is centred on (or next to) a pixel of the stamp
      near == pr >= -1 /\ pc >= -1 /\ pr <= nr /\ pc <= nc
  IN IF ~AnyMfrac(g) THEN <<0, 1>>
     ELSE IF nr = 0 \/ nc = 0 THEN <<1, 1>>
     ELSE IF ~near THEN << >>
     ELSE Q(vs, ws * den)

(* the summary of the original PSF over a band list of a set *)
PsfOk(cfg, s) == \A b \in 1..cfg.nband : cfg.sets[s + 1].bands[b].psf.flags = 0
PsfMean(bds, get(_)) ==
  QDiv(SumSeqQ([i \in DOMAIN bds |-> QI(BandMax(bds[i]) * get(bds[i].psf))]),
       QI(SumSeq([i \in DOMAIN bds |-> BandMax(bds[i])])))

(* size code the moments environment returns for a band of an object's stamp *)
TCode(o, b) == 10 * o.box + b + 1

(* --------------------------------------------------------------- monitor *)
(* st = [fits: per set number of fits so far, bad: per set a fit failed,
         mcal: per set metacal runs, keyed: sets the colour function named] *)
MonInit(n) == [fits |-> [s \in 1..n |-> 0], bad |-> [s \in 1..n |-> FALSE],
               mcal |-> [s \in 1..n |-> 0], keyed |-> {0}]
MonPsf(st, s, flags) ==
  [st EXCEPT !.fits[s + 1] = @ + 1, !.bad[s + 1] = @ \/ flags # 0]
MonMetacal(st, s) == [st EXCEPT !.mcal[s + 1] = @ + 1]
MonKey(st, s) == [st EXCEPT !.keyed = @ \cup {s}]

PsfAllowed(cfg, st, s, b) ==
  /\ b = st.fits[s + 1]           \* each band once
  /\ ~st.bad[s + 1]
  /\ st.mcal[s + 1] = 0           \* before metacal
MetacalAllowed(cfg, st, s) ==
  /\ st.mcal[s + 1] = 0           \* once
  /\ st.bad[s + 1] \/ st.fits[s + 1] = cfg.nband
SetAllowed(cfg, st, s) == s \in st.keyed /\ (s # 0 => st.mcal[1] = 1)
=============================================================================
