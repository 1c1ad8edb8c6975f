--------------------------- MODULE Trace_LsstRun ---------------------------
(* Recorded runs on exposures, and recorded configurations. *)
EXTENDS LsstRun, TraceLib
VARIABLE l

Entry(e, t) == e.out[CHOOSE k \in DOMAIN e.out : e.out[k].key = t]
RowsAt(rows, p) == {r \in DOMAIN rows : rows[r].pos = p}

CheckRun(e) ==
  LET mdet == e.api = "mdet"
      known == Known_(e.names, e.set.shear_bands)
      kernel0 == "gauss"
  IN
  IF e.reject # "" THEN
    Clause("L02." \o e.reject \o "_rejected", e.outcome \notin {"ok", "crash"} /\ e.detects = << >>)
  ELSE IF ~known THEN Clause("L02.unknown_bands_rejected", e.outcome # "ok")
  ELSE IF \E b \in DOMAIN e.vars : FinitePositive(e.vars[b]) = << >>
  THEN Clause("L13.unusable_exposure_refused", e.outcome \notin {"ok", "crash"} /\ e.detects = << >>)
       \cup Clause("L13.products_kept", e.products_same = 1)
  ELSE IF e.outcome # "ok" THEN {"L13.completes", "L02.completes"}
  ELSE
  LET fr == e.fr
      nb == Len(e.names)
      wts == TLCEval([b \in 1..nb |-> WeightOf(e.vars[b])])
      shear == ShearBands(e.names, e.set.shear_bands)
      map == TLCEval(IF e.mfrac = << >> THEN << >> ELSE MeanMap(e.mfrac, wts))
      denom == FRM * SumSeq(wts)
      fits == FitsFine(e.psf)
      e1 == MeanOver(shear, wts, [b \in 1..nb |-> e.psf[b].e1])
      e2 == MeanOver(shear, wts, [b \in 1..nb |-> e.psf[b].e2])
      T == MeanOver(shear, wts, [b \in 1..nb |-> e.psf[b].T])
      fine == fits /\ ShapeFine(e1, e2)
      label == e.labels
      Kids(t) == SelectSeq(e.srcs[CHOOSE k \in DOMAIN e.srcs : e.srcs[k].t = t].cat, LAMBDA s : s.nchild = 0)
      Summary(q) == IF fine THEN /\ q.flags = 0 /\ q.navg = Len(shear)
                                 /\ Near(q.T, T, 1, 1) /\ SameShape(e1, e2, q.g1, q.g2)
                    ELSE q.flags # 0
      RowOk(t, s) ==
        LET rows == Entry(e, t).rows
            r == rows[CHOOSE k \in RowsAt(rows, Pos(s)) : TRUE]
        IN Clause("L13.ormask_at_own_position", r.ormask = OrMaskAt(e.ormasks, Pos(s), fr[1], fr[2]))
           \cup Clause("L13.masked_fraction_at_own_position",
                  IF map = << >> THEN r.mfrac = 0
                  ELSE Near(r.mfrac, MaskedFraction(map, denom, e.m, Pos(s), fr[1], fr[2]), 1000,
                            IF AnyMasked(map) THEN 4 ELSE 0))
           \cup Clause("L13.psf_summary", Summary([flags |-> r.pflags, navg |-> r.navg, T |-> r.T, g1 |-> r.g1, g2 |-> r.g2]))
           \cup Clause("L02.stamp_size_takes_effect", r.size = e.set.stamp_size)
           \cup Clause("L02.shear_bands_take_effect", RangeOf(r.shear) = RangeOf(shear))
           \cup Clause("L02.pgauss_fwhm_takes_effect", r.fwhm \in {0, e.set.fwhm})
      TypeOk(t) ==
        LET o == Entry(e, t) kids == Kids(t) IN
        IF kids = << >> THEN Clause("L13.nothing_detected_gives_nothing", o.none = 1)
        ELSE Clause("L13.rows_of_the_type_itself", /\ o.none = 0 /\ Len(o.rows) = Len(kids)
                        /\ \A k \in DOMAIN kids : Cardinality(RowsAt(o.rows, Pos(kids[k]))) = 1)
             \cup UNION {IF o.none = 1 \/ RowsAt(o.rows, Pos(kids[k])) = {} THEN {} ELSE RowOk(t, kids[k])
                         : k \in DOMAIN kids}
      types == RangeOf(e.set.types)
      main == SelectSeq(e.detects, LAMBDA d : d.kind = "main")
      skies == SelectSeq(e.detects, LAMBDA d : d.kind = "sky")
      want == IF mdet THEN Kernel(e.set.reconv, fine) ELSE "none"
  IN Clause("L13.entry_for_every_type", e.keys = types \cup (IF e.stats_asked = 1 THEN {"psf_stats"} ELSE {}))
     \cup (IF types \subseteq e.keys THEN UNION {TypeOk(t) : t \in types} ELSE {})
     \cup Clause("L13.products_kept", e.products_same = 1)
     \cup Clause("L02.types_take_effect", types = e.keys \ {"psf_stats"})
     \cup Clause("L02.each_type_detected_on_its_image",
            /\ Len(main) = Cardinality(types) /\ {main[k].type : k \in DOMAIN main} = types)
     \cup Clause("L02.reconvolution_takes_effect", \A k \in DOMAIN main : main[k].kernel \in {want, "any"})
     \cup Clause("L02.threshold_takes_effect", \A k \in DOMAIN e.detects : e.detects[k].thr = e.set.thresh)
     \cup Clause("L02.deblender_takes_effect", /\ Len(e.deblends) = Cardinality(types)
            /\ \A k \in DOMAIN e.deblends : e.deblends[k] = e.set.deblender)
     \cup Clause("L02.subtract_sky_takes_effect", (e.backgrounds # {}) = (e.set.subtract_sky = 1)
            /\ (e.set.subtract_sky = 1 => e.backgrounds = RangeOf(e.names)))
     \cup Clause("L02.config_kept", e.cfg_same = 1)
     \cup (IF e.stats_asked = 1 /\ "psf_stats" \in e.keys
           THEN Clause("L13.psf_stats_returned", Summary(e.stats)
                  /\ (fine => Near(e.stats.e1, e1, 1, 1) /\ Near(e.stats.e2, e2, 1, 1)))
             \* and what was found in each band, shear band or not
             \cup Clause("L13.psf_stats_per_band",
                  IF ~fine THEN e.stats.bands = << >>
                  ELSE /\ Len(e.stats.bands) = nb
                       /\ \A b \in 1..nb :
                            LET q == e.stats.bands[b]
                            IN /\ Abs(q.e1 - e.psf[b].e1) <= 1 /\ Abs(q.e2 - e.psf[b].e2) <= 1
                               /\ Abs(q.T - e.psf[b].T) <= 1
                               /\ Near(q.w, Q(wts[b], wts[1]), 1000, 3)
                               /\ (q.sb = 1) = (\E k \in DOMAIN shear : shear[k] + 1 = b))
           ELSE {})

CheckOverride(e) ==
  IF ~AllNamed(e.base, e.over) \/ e.bad = 1 THEN
    Clause("L02.unknown_names_rejected", e.outcome # "ok") \cup Clause("L02.dictionary_kept", e.dict_same = 1)
    \cup Clause("L02.later_defaults_kept", e.fresh = e.base)
  ELSE IF e.outcome # "ok" THEN {"L02.completes"}
  ELSE Clause("L02.exactly_the_named_settings", e.after = Override(e.base, e.over))
       \cup Clause("L02.dictionary_kept", e.dict_same = 1)
       \cup Clause("L02.later_defaults_kept", e.fresh = e.base)

Norm(e) == IF e.op = "run" THEN [e EXCEPT !.keys = RangeOf(@), !.backgrounds = RangeOf(@)] ELSE e
Failing(x) == LET e == Norm(x) IN
              CASE e.op = "run" -> CheckRun(e)
                [] e.op = "override" -> CheckOverride(e)
                [] OTHER -> {"L13.unknown_record", "L02.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
