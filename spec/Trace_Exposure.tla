--------------------------- MODULE Trace_Exposure ---------------------------
(* Recorded conversions, coadds, stamps and selections. *)
EXTENDS Exposure, TraceLib
VARIABLE l
S == 1000

Same(g, h) == Len(g) = Len(h) /\ \A i \in DOMAIN g : Len(g[i]) = Len(h[i])
AllCells(g, ok(_, _)) == \A i \in DOMAIN g : \A j \in DOMAIN g[i] : ok(i, j)
Zero(g) == AllCells(g, LAMBDA i, j : g[i][j] = 0)
FrameOk(j, m, cen) == /\ j.cen = cen
                      /\ j.d = Frame(m)
PsfCentre(o) == << PS * ((NCol(o.psf) - 1) \div 2), PS * ((NRow(o.psf) - 1) \div 2) >>

(* ---------------------------------------------------------------- L08 *)
CheckExp2obs(e) ==
  LET x == e.exp o == e.obs IN
  IF e.to \notin {"ormask", "bmask"} THEN Clause("L08.unknown_mask_refused", e.outcome = "raise:RuntimeError")
  ELSE IF e.outcome # "ok" THEN {"L08.completes"}
  ELSE Clause("L08.pixels", o.im = x.im)
    \cup Clause("L08.inverse_variance", Same(o.w, x.var)
           /\ AllCells(x.var, LAMBDA i, j : Near(o.w[i][j], InvVar(x.var[i][j]), S, 1)))
    \cup Clause("L08.mask_bits",
           IF e.to = "ormask" THEN o.om = x.mask /\ Same(o.bm, x.mask) /\ Zero(o.bm)
           ELSE o.bm = x.mask /\ Same(o.om, x.mask) /\ Zero(o.om))
    \cup Clause("L08.frame", FrameOk(o.jac, x.m, << PS * (W(x) \div 2), PS * (H(x) \div 2) >>))
    \cup Clause("L08.psf_position",
           o.psfpos = << PS * MidOf(x.x, W(x)), PS * MidOf(x.y, H(x)) >>)
    \cup Clause("L08.psf_pixels", o.psf = e.psf)
    \cup Clause("L08.psf_frame", FrameOk(o.pjac, x.m, PsfCentre(o)))
    \cup Clause("L08.psf_weight", o.pw = 1)
    \cup Clause("L08.stored_exposure", o.stored = e.store)
    \cup Clause("L08.exposure_unchanged", e.same = 1)

CheckObs2exp(e) ==
  LET x == e.out o == e.obs IN
  IF e.from \notin {"ormask", "bmask"} THEN Clause("L08.unknown_mask_refused", e.outcome = "raise:RuntimeError")
  ELSE IF e.outcome # "ok" THEN {"L08.completes"}
  ELSE Clause("L08.pixels", x.im = o.im)
    \cup Clause("L08.variance", Same(x.var, o.w)
           /\ AllCells(o.w, LAMBDA i, j :
                IF o.w[i][j] > 0 THEN Near(x.var[i][j], Q(VS, o.w[i][j]), S, 1) ELSE x.var[i][j] = INF))
    \cup Clause("L08.mask_bits", x.mask = (IF e.from = "ormask" THEN o.om ELSE o.bm))
    \cup Clause("L08.same_exposure", e.given = 1 => e.same_object = 1 /\ e.wcs_same = 1)
    \cup Clause("L08.psf_copied", IF e.copy = 1 THEN e.psf_copied = 1 ELSE e.psf_kept = 1)
    \cup Clause("L08.observation_unchanged", e.same = 1)

CheckRound(e) ==
  IF e.outcome # "ok" THEN {"L08.completes"}
  ELSE Clause("L08.round_trip",
         /\ e.out.im = e.exp.im /\ e.out.mask = e.exp.mask
         /\ AllCells(e.exp.var, LAMBDA i, j :
              LET v == e.exp.var[i][j]
              IN IF IsNum(v) /\ v > 0 THEN e.out.var[i][j] = v ELSE e.out.var[i][j] = INF))

(* a chain of conversions ends in the state the model's chain ends in *)
FormOf(e) == [form |-> "exp", im |-> e.exp.im, var |-> e.exp.var, mask |-> e.exp.mask]
CheckChain(e) ==
  LET s == Chain(FormOf(e), e.steps) o == e.out IN
  IF e.outcome # "ok" THEN {"L08.completes"}
  ELSE IF s.form = "exp"
  THEN Clause("L08.chain", o.im = s.im /\ o.mask = s.mask /\ o.var = s.var)
  ELSE Clause("L08.chain", /\ o.im = s.im /\ o.bm = s.bm /\ o.om = s.om /\ Same(o.w, s.w)
                           /\ AllCells(s.w, LAMBDA i, j : Near(o.w[i][j], s.w[i][j], S, 1)))

(* a PSF that cannot be evaluated *)
CheckNoPsf(e) == Clause("L08.unevaluable_psf_refused",
                 \/ e.outcome = "raise:MissingDataError"
                 \/ /\ e.stamp = 1 /\ (NoneUsable(e.exp) \/ MedWeight(e.exp)[1] = 0)
                    /\ e.outcome = "raise:AllZeroWeightError")
            \cup Clause("L08.exposure_unchanged", e.same = 1)

SrcPos(e) == IF e.coord = << >> THEN << PS * e.peak[1], PS * e.peak[2] >> ELSE e.coord
CheckExtract(e) ==
  LET x == e.exp o == e.obs IN
  IF NoneUsable(x) \/ MedWeight(x)[1] = 0
  THEN Clause("L08.no_usable_variance_refused", e.outcome = "raise:AllZeroWeightError")
  ELSE IF e.outcome # "ok" THEN {"L08.completes"}
  ELSE Clause("L08.pixels", o.im = x.im)
    \cup Clause("L08.median_weight", Same(o.w, x.var)
           /\ AllCells(o.w, LAMBDA i, j : Near(o.w[i][j], MedWeight(x), S, 1)))
    \cup Clause("L08.mask_bits", o.bm = x.mask)
    \cup Clause("L08.frame", FrameOk(o.jac, x.m, Rel(x, SrcPos(e))))
    \cup Clause("L08.psf_position", o.psfpos = e.cen)
    \cup Clause("L08.psf_pixels", o.psf = e.psf)
    \cup Clause("L08.psf_frame", FrameOk(o.pjac, x.m, PsfCentre(o)))
    \cup Clause("L08.psf_weight", o.pw = 1)
    \cup Clause("L08.exposure_unchanged", e.same = 1)

(* ---------------------------------------------------------------- L09 *)
Close(x, qs) == \E q \in qs : Near(x, q, S, 3)
CheckCoadd(e) ==
  LET es == e.exps o == e.out IN
  IF WTot(es)[1] = 0 THEN Clause("L09.nothing_without_weight", e.outcome = "none")
  ELSE IF e.outcome # "ok" THEN {"L09.completes"}
  ELSE Clause("L09.weighted_mean", Same(o.im, es[1].im)
           /\ AllCells(o.im, LAMBDA i, j : Close(o.im[i][j], CoaddAt(es, i, j))))
    \cup Clause("L09.variance", Same(o.var, es[1].var)
           /\ AllCells(o.var, LAMBDA i, j :
                LET v == InvVarSum(es, i, j)
                IN IF v[1] = 0 THEN o.var[i][j] = INF ELSE Near(o.var[i][j], QInv(v), S, 2)))
    \cup Clause("L09.mask_or", o.mask = Grid(H(es[1]), W(es[1]), LAMBDA i, j : MaskOr(es, i, j)))
    \cup Clause("L09.psf", Same(o.psf, e.psfs[1])
           /\ AllCells(o.psf, LAMBDA i, j : Near(o.psf[i][j], PsfAt(Ws(es), e.psfs, i, j), S, 3)))
    \cup Clause("L09.psf_position", \A n \in DOMAIN e.pos : \A k \in DOMAIN e.pos[n] :
           e.pos[n][k] = << (PS \div 2) * (2 * es[n].x + W(es[n]) - 1),
                            (PS \div 2) * (2 * es[n].y + H(es[n]) - 1) >>)
    \cup Clause("L09.frame", o.x = es[1].x /\ o.y = es[1].y /\ e.wcs_same = 1)
    \cup Clause("L09.inputs_unchanged", e.same = 1)

(* observations: w holds weights *)
PosMed(w) == MedianQ(SelectSeq(Flat(w), LAMBDA v : v > 0))
CheckMbCoadd(e) ==
  LET os == e.obs ws == [n \in DOMAIN os |-> PosMed(os[n].w)] tot == SumSeqQ(ws) o == e.out IN
  IF e.outcome # "ok" THEN {"L09.completes"}
  ELSE Clause("L09.weighted_mean", Same(o.im, os[1].im) /\ AllCells(o.im, LAMBDA i, j :
           Near(o.im[i][j], QDiv(SumSeqQ([n \in DOMAIN os |-> QMul(ws[n], QI(os[n].im[i][j]))]), tot), S, 3)))
    \cup Clause("L09.weight_sum", o.w = Grid(NRow(os[1].w), NCol(os[1].w),
           LAMBDA i, j : S * SumSeq([n \in DOMAIN os |-> os[n].w[i][j]])))
    \cup Clause("L09.psf", Same(o.psf, os[1].psf) /\ AllCells(o.psf, LAMBDA i, j :
           Near(o.psf[i][j], PsfAt(ws, [n \in DOMAIN os |-> os[n].psf], i, j), S, 3)))
    \cup Clause("L09.frame", o.jac \in {os[n].jac : n \in DOMAIN os} /\ o.pjac \in {os[n].pjac : n \in DOMAIN os})
    \cup Clause("L09.inputs_unchanged", e.same = 1)

(* several products of several bands, split into aligned exposures *)
CheckSplit(e) ==
  IF e.outcome # "ok" THEN {"L09.completes"}
  ELSE Clause("L09.split_planes", \A k \in DOMAIN e.out : e.out[k] = e.given[k])
    \cup Clause("L09.split_ormasks", e.ormasks = e.masks)
    \cup Clause("L09.split_masks_zeroed", \A k \in DOMAIN e.newmasks : Zero(e.newmasks[k]))
    \cup Clause("L09.split_bands", \A k \in DOMAIN e.bands : e.bands[k] = e.names)
    \cup Clause("L09.split_metadata", e.meta_same = 1)
    \cup Clause("L09.split_copies", e.copied = 1)

CheckCopy(e) ==
  IF e.outcome # "ok" THEN {"L09.completes"}
  ELSE Clause("L09.copy_planes", e.cleared = 1 \/ e.out.im = e.given.im)
    \cup Clause("L09.copy_cleared", e.cleared = 1 => Zero(e.out.im))
    \cup Clause("L09.copy_planes", e.out.var = e.given.var /\ e.out.mask = e.given.mask)
    \cup Clause("L09.copy_metadata", e.meta_same = 1)
    \cup Clause("L09.copy_is_separate", e.copied = 1)

(* ---------------------------------------------------------------- L10 *)
Own(e, k) == e.exps[k]
CheckStamp(e) ==
  LET B == [x |-> e.exps[1].x, y |-> e.exps[1].y, w |-> W(e.exps[1]), h |-> H(e.exps[1])]
      b == IF e.size < 0 THEN e.fpbox ELSE BoxFor(e.peak, e.size, e.clip, B)
  IN IF e.size >= 0 /\ Refused(e.peak, e.size, e.clip, B)
     THEN Clause("L10.refused_when_it_does_not_fit", e.outcome = "raise:LengthError")
     ELSE IF e.outcome # "ok" THEN {"L10.completes"}
     ELSE Clause("L10.box", e.box = << >> \/ e.box = << b.x, b.y, b.w, b.h >>)
       \cup Clause("L10.every_band", e.planes = << >> \/ Len(e.planes) = Len(e.exps))
       \cup Clause("L10.band_order", e.bands = << >> \/ e.bands = e.names)
       \cup Clause("L10.stamp_pixels", \A k \in DOMAIN e.planes :
              e.planes[k].im = SubGrid(e.exps[k].im, e.exps[k], b))
       \cup Clause("L10.stamp_mask", \A k \in DOMAIN e.planes :
              e.planes[k].mask = SubGrid(e.exps[k].mask, e.exps[k], b))
       \cup Clause("L10.stamp_variance", \A k \in DOMAIN e.planes :
              e.planes[k].var = << >> \/ e.planes[k].var = SubGrid(e.exps[k].var, e.exps[k], b))
       \cup Clause("L10.stamp_frame", \A k \in DOMAIN e.planes :
              e.planes[k].xy = << >> \/ e.planes[k].xy = << b.x, b.y >>)
       \cup Clause("L10.stamp_centre", \A k \in DOMAIN e.planes :
              e.planes[k].cen = << >> \/
              e.planes[k].cen = << e.coord[1] - PS * b.x, e.coord[2] - PS * b.y >>)
       \cup Clause("L10.copied", e.copied = 1)
       \cup Clause("L10.exposure_unchanged", e.same = 1)
CheckStranger(e) == Clause("L10.strangers_rejected", e.outcome = "raise:ValueError")

(* ---------------------------------------------------------------- L12 *)
CheckSelect(e) ==
  IF ~AllKnown(e.bands, e.want) THEN Clause("L12.unknown_bands_refused", e.outcome = "raise:RuntimeError")
  ELSE IF e.outcome # "ok" THEN {"L12.completes"}
  ELSE Clause("L12.named_bands_in_order", e.out = Selected(e.bands, e.want))
CheckTrim(e) ==
  LET side == TrimSide(e.h, e.w) IN
  IF TrimRefused(e.h, e.w) THEN Clause("L12.even_dimensions_refused", e.outcome = "raise:AssertionError")
  ELSE IF e.outcome # "ok" THEN {"L12.completes"}
  ELSE Clause("L12.centred_square", e.out = [h |-> side, w |-> side,
                r |-> TrimAt(e.h, side), c |-> TrimAt(e.w, side), ok |-> 1])
    \cup Clause("L12.input_unchanged", e.same = 1)

Failing(e) == CASE e.op = "exp2obs" -> CheckExp2obs(e)
                [] e.op = "obs2exp" -> CheckObs2exp(e)
                [] e.op = "round" -> CheckRound(e)
                [] e.op = "chain" -> CheckChain(e)
                [] e.op = "nopsf" -> CheckNoPsf(e)
                [] e.op = "extract" -> CheckExtract(e)
                [] e.op = "coadd" -> CheckCoadd(e)
                [] e.op = "mbcoadd" -> CheckMbCoadd(e)
                [] e.op = "split" -> CheckSplit(e)
                [] e.op = "copy" -> CheckCopy(e)
                [] e.op = "stamp" -> CheckStamp(e)
                [] e.op = "stranger" -> CheckStranger(e)
                [] e.op = "select" -> CheckSelect(e)
                [] e.op = "trim" -> CheckTrim(e)
                [] OTHER -> {"L08.unknown_record", "L09.unknown_record", "L10.unknown_record", "L12.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
