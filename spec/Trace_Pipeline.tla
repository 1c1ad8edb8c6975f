-------------------------- MODULE Trace_Pipeline --------------------------
(***************************************************************************)
(* Recorded metadetect runs, judged against Pipeline.  A run is the lines  *)
(*   begin (its input), psf / metacal / color events in the order in which *)
(*   the code made the calls, end (its result).                            *)
(* Lines with op "api" are single calls of the gate of the interface.      *)
(***************************************************************************)
EXTENDS Pipeline, TraceLib
VARIABLES l, cfg, st, calls

S == 1000
NoCfg == [none |-> TRUE]

JacOf(c) == [vr |-> c.jac.vr, vc |-> c.jac.vc, ur |-> c.jac.ur, uc |-> c.jac.uc,
             jd |-> c.jac.jd, row0 |-> <<c.jac.row0[1], c.jac.row0[2]>>,
             col0 |-> <<c.jac.col0[1], c.jac.col0[2]>>]

(* ----------------------------------------------------------------- events *)
CheckPsf(e) ==
  Clause("M03.psf_fit_once_in_order_before_metacal", PsfAllowed(cfg, st, e.set, e.band))
  \cup Clause("M03.set_used_before_needed", SetAllowed(cfg, st, e.set))
  \cup (IF cfg.colour = 1 THEN Clause("M05.set_not_selected", SetAllowed(cfg, st, e.set)) ELSE {})
CheckMetacal(e) ==
  Clause("M03.metacal_once_after_psf", MetacalAllowed(cfg, st, e.set))
  \cup Clause("M03.set_used_before_needed", SetAllowed(cfg, st, e.set))
  \cup Clause("M01.metacal_types", RangeOf(e.types) = RangeOf(cfg.types))
  \cup Clause("M06.metacal_settings", e.step = cfg.step_given)

(* -------------------------------------------------------------- catalogue *)
(* the expected rows of a type: <<comb index, object index>> in order *)
RECURSIVE RowsFrom(_, _, _)
RowsFrom(c, t, i) ==
  IF i > Len(Combs(c)) THEN << >>
  ELSE LET m == Measured(c, t, DetBands(c, i))
       IN [n \in DOMAIN m |-> <<i, m[n]>>] \o RowsFrom(c, t, i + 1)

(* per combination and set: what does not depend on the object *)
Meta(c, i, s) ==
  LET comb == Combs(c)[i]
      bds == [n \in DOMAIN comb |-> Band(c, s, comb[n])]
      g == MfGrid(bds, c.nrow, c.ncol)
      d == MfDenom(bds)
  IN [o |-> OrGrid(c, bds, "o"), b |-> OrGrid(c, bds, "b"), g |-> g, d |-> d,
      img |-> Q(SumSeq(Flat(g)), d * c.nrow * c.ncol),
      ok |-> PsfOk(c, s),
      T |-> PsfMean(bds, LAMBDA p : p.T),
      e1 |-> PsfMean(bds, LAMBDA p : p.e1), e2 |-> PsfMean(bds, LAMBDA p : p.e2)]

Tie(p) == p[1][2] = 2 \/ p[2][2] = 2
MaskOk(c, grid, p, hw, v) == Tie(p) \/ v = Window(c, grid, p, hw)
(* a stamp in which the first image of the run has no usable pixel cannot be
   averaged with weights: it may be reported as fully masked *)
Unusable(c, p, box) ==
  LET r0 == StartOf(TruncQ(p[1]), box)
      c0 == StartOf(TruncQ(p[2]), box)
      w == c.sets[1].bands[1].w
  IN \A i \in 1..Cover(c.nrow, r0, box) : \A j \in 1..Cover(c.ncol, c0, box) : w[r0 + i][c0 + j] = 0
MfOk(c, m, p, v, box) ==
  IF v = S /\ AnyMfrac(m.g) /\ Unusable(c, p, box) THEN TRUE
  ELSE IF Whole(p)
  THEN LET q == MfAt(c, m.g, m.d, p, box) IN q = << >> \/ Near(v, q, S, 5)
  ELSE LET r0 == StartOf(TruncQ(p[1]), box)
           c0 == StartOf(TruncQ(p[2]), box)
           nr == Cover(c.nrow, r0, box)
           nc == Cover(c.ncol, c0, box)
           vals == {m.g[r0 + i][c0 + j] : i \in 1..nr, j \in 1..nc}
       IN \/ ~AnyMfrac(m.g) /\ v = 0
          \/ AnyMfrac(m.g) /\ (nr = 0 \/ nc = 0) /\ v = S
          \/ /\ AnyMfrac(m.g) /\ nr > 0 /\ nc > 0
             /\ v = NAN \/ (v >= (MinSet(vals) * S) \div m.d - 3
                            /\ v <= (MaxSet(vals) * S) \div m.d + 3)

RowClauses(c, t, row, ik, meta) ==
  LET i == ik[1]
      k == ik[2]
      o == c.objs[t][k]
      s == SetOf(c, t, k)
      m == meta[i][s + 1]
      comb == Combs(c)[i]
      p == << QI(o.r), QI(o.c) >>
      pn == UnshearAt(p, t, c.step, JacOf(c), <<c.nrow, c.ncol>>)
      bst == [b \in 1..c.nband |-> BandState(c, Band(c, s, b - 1), o)]
      anybad == \E n \in DOMAIN comb : bst[comb[n] + 1].bad
      wsum == SumSeq([n \in DOMAIN comb |-> bst[comb[n] + 1].w2])
      Tq == Q(SumSeq([n \in DOMAIN comb |-> bst[comb[n] + 1].w2 * TCode(o, comb[n])]), wsum)
      flux == \A b \in 1..c.nband :
                 row.flux[b] = (IF bst[b].bad THEN NAN ELSE FluxAt(c, s, t, b - 1, k))
      size == IF anybad THEN row.T = NAN ELSE Near(row.T, Tq, S, 3)
      clean == (row.flags = 0) = (\A b \in 1..c.nband : ~bst[b].bad)
      labels == row.sb = Label(comb) /\ row.db = Label(DetBands(c, i))
      pos == row.r = o.r * S /\ row.c = o.c * S
      om == MaskOk(c, m.o, p, OHalf(c), row.om)
      omn == MaskOk(c, m.o, pn, OHalf(c), row.omn)
      bm == MaskOk(c, m.b, p, BHalf(c), row.bm)
      bmn == MaskOk(c, m.b, pn, BHalf(c), row.bmn)
      mf == MfOk(c, m, p, row.mf, o.box)
      mfn == MfOk(c, m, pn, row.mfn, o.box)
      img == Near(row.mfi, m.img, S, 3)
      psf == IF m.ok THEN row.pf = 0 /\ Near(row.pT, m.T, S, 3)
                          /\ Near(row.pe1, m.e1, 10, 1) /\ Near(row.pe2, m.e2, 10, 1)
             ELSE row.pf # 0 /\ AndBits(row.pf, PSF_FAILURE) # 0
                  /\ row.pT = NAN /\ row.pe1 = NAN /\ row.pe2 = NAN
      main == (IF c.colour = 1 THEN "M05." ELSE "M02.")
      all == flux /\ size /\ clean /\ labels /\ pos
      metas == om /\ omn /\ bm /\ bmn /\ mf /\ mfn /\ img /\ psf
  IN Clause("M02.labels", labels) \cup Clause("M02.position", pos)
     \cup Clause(main \o "measured_images", flux)
     \cup Clause(main \o "measured_box", size)
     \cup Clause("M02.shear_bands_averaged", size)
     \cup Clause("M02.flags", clean)
     \cup Clause("M04.ormask", om /\ omn) \cup Clause("M04.bmask", bm /\ bmn)
     \cup Clause("M04.mfrac", mf /\ mfn) \cup Clause("M04.mfrac_img", img)
     \cup Clause("M04.psf", psf)
     \cup Clause("M08.ormask", om) \cup Clause("M08.ormask_noshear", omn)
     \cup Clause("M08.bmask", bm) \cup Clause("M08.bmask_noshear", bmn)
     \cup Clause("M09.mfrac", mf) \cup Clause("M09.mfrac_noshear", mfn)
     \cup Clause("M10.psf_summary", psf)
     \cup Clause("M07.catalogue_position",
                 Near(row.rn, pn[1], S, 3) /\ Near(row.cn, pn[2], S, 3))
     \cup (IF Len(Combs(c)) > 1 THEN Clause("M03.combinations_independent", all /\ metas) ELSE {})
     \cup (IF c.colour = 1 THEN Clause("M05.metadata_of_set", metas) ELSE {})

CheckRows(c, t, rows, meta) ==
  LET exp == RowsFrom(c, t, 1)
      same == Len(rows) = Len(exp)
  IN Clause("M02.one_row_per_detection", same)
     \cup (IF c.colour = 1 THEN Clause("M05.dropped_only_if_set_failed", same) ELSE {})
     \cup (IF Len(Combs(c)) > 1 THEN Clause("M03.combinations_independent", same) ELSE {})
     \cup (IF ~same THEN Clause("M10.measurement_proceeds", \A s \in 1..NSets(c) : PsfOk(c, s - 1))
           ELSE UNION {RowClauses(c, t, rows[n], exp[n], meta) : n \in DOMAIN rows})

(* calls of the colour function: one per detection with its fluxes *)
RECURSIVE CallsFrom(_, _, _)
CallsFrom(c, ti, i) ==
  IF ti > Len(c.types) THEN << >>
  ELSE IF i > Len(Combs(c)) THEN CallsFrom(c, ti + 1, 1)
  ELSE LET t == c.types[ti]
           d == Detected(c, t, DetBands(c, i))
       IN [n \in DOMAIN d |->
             [b \in 1..c.nband |->
                IF BandState(c, Band(c, 0, b - 1), c.objs[t][d[n]]).bad THEN NAN
                ELSE FluxAt(c, 0, t, b - 1, d[n])]] \o CallsFrom(c, ti, i + 1)
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in RangeOf(a) : Cardinality({i \in DOMAIN a : a[i] = x})
                           = Cardinality({i \in DOMAIN b : b[i] = x})

CheckEnd(e) ==
  LET none == NoResult(cfg)
      meta == [i \in DOMAIN Combs(cfg) |-> [s \in 1..NSets(cfg) |-> Meta(cfg, i, s - 1)]]
      done == e.outcome \in {"none", "dict"}
  IN Clause("M01.completes", done)
     \* without a result no property of the result holds
     \cup (IF done THEN {} ELSE {"M02.completes", "M03.completes", "M04.completes",
                                 "M08.completes", "M09.completes", "M10.completes"}
                                \cup (IF cfg.colour = 1 THEN {"M05.completes"} ELSE {}))
     \cup Clause("M01.nothing_iff_unmeasurable", (e.outcome = "none") = none)
     \cup (IF \E s \in 1..NSets(cfg) : ~PsfOk(cfg, s - 1)
           THEN Clause("M10.measurement_proceeds", (e.outcome = "none") = none) ELSE {})
     \cup Clause("M01.inputs_unchanged", e.inputs_same = 1)
     \cup (IF Unmeasurable(cfg) THEN {} ELSE
            Clause("M03.metacal_run_for_every_set_used",
                   \A s \in 1..NSets(cfg) :
                     st.mcal[s] = (IF none THEN (IF s = 1 THEN 1 ELSE 0)
                                   ELSE IF (s - 1) \in SetsUsed(cfg) THEN 1 ELSE 0)))
     \cup (IF e.outcome # "dict" \/ none THEN {} ELSE
            Clause("M01.requested_types",
                   RangeOf(e.keys) = RangeOf(cfg.types) /\ Len(e.keys) = Cardinality(RangeOf(cfg.types)))
            \cup UNION {LET t == cfg.types[ti]
                        IN Clause("M01.empty_entry",
                              (t \in RangeOf(e.empty)) = (RowsFrom(cfg, t, 1) = << >>))
                           \cup (IF t \in DOMAIN e.rows THEN CheckRows(cfg, t, e.rows[t], meta)
                                 ELSE CheckRows(cfg, t, << >>, meta))
                        : ti \in DOMAIN cfg.types}
            \cup (IF cfg.colour = 0 THEN {} ELSE
                   Clause("M05.colour_called_with_fluxes", SameBag(calls, CallsFrom(cfg, 1, 1)))))

(* a direct measurement of a masked-fraction image at whole positions; fwhm in
   hundredths of a pixel, -1 for none given *)
MfOne(e, o) ==
  LET r0 == StartOf(o.r, o.box)
      c0 == StartOf(o.c, o.box)
      nr == Cover(e.nrow, r0, o.box)
      nc == Cover(e.ncol, c0, o.box)
      G(a, b) == IF e.fwhm = 200 THEN G2(a, b)
                 ELSE IF e.fwhm = 100 THEN G1P(a, b)
                 \* half a pixel: nothing but the centre is within twice the width
                 ELSE IF e.fwhm = 50 THEN (IF a = 0 /\ b = 0 THEN 1024 ELSE 0) ELSE G12(a, b)
      wt(i, j) == G(r0 + i - 1 - o.r, c0 + j - 1 - o.c)
      ws == SumSeq(Flat([i \in 1..nr |-> [j \in 1..nc |-> wt(i, j)]]))
      vs == SumSeq(Flat([i \in 1..nr |-> [j \in 1..nc |-> (wt(i, j) \div 8) * e.m[r0 + i][c0 + j]]]))
      near == o.r <= r0 + nr - 1 /\ o.c <= c0 + nc - 1 /\ o.r >= r0 /\ o.c >= c0
  IN IF o.box = 0 \/ nr = 0 \/ nc = 0 THEN <<1, 1>>
     ELSE IF ~near THEN << >>
     ELSE Q(vs, 4 * (ws \div 8))
CheckMf(e) ==
  Clause("M09.completes", e.outcome = "ok")
  \cup Clause("M09.inputs_unchanged", e.inputs_same = 1)
  \cup (IF e.outcome # "ok" THEN {} ELSE
     Clause("M09.one_value_per_object", Len(e.out) = Len(e.objs))
     \cup (IF Len(e.out) # Len(e.objs) THEN {} ELSE
        Clause("M09.average", \A k \in DOMAIN e.objs :
           LET q == MfOne(e, e.objs[k]) IN q = << >> \/ Near(e.out[k], q, S, 4))))

CheckApi(e) ==
  CASE e.call = "result_before_go" -> Clause("M01.result_before_run", e.outcome # "ok")
    [] e.call = "bad_config" -> Clause("M01.bad_arguments_rejected", e.outcome # "ok" /\ e.worked = 0)
    [] e.call = "joint_colour" -> Clause("M05.joint_first_fitter_refused", e.outcome # "ok")
    [] OTHER -> {"M01.unknown_record"}

(* ------------------------------------------------------------------ trace *)
Failing(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "psf" -> CheckPsf(e)
    [] e.op = "metacal" -> CheckMetacal(e)
    [] e.op = "color" -> {}
    [] e.op = "end" -> CheckEnd(e)
    [] e.op = "api" -> CheckApi(e)
    [] e.op = "mf" -> CheckMf(e)
    [] OTHER -> {"M01.unknown_record"}

Init == l = 1 /\ cfg = NoCfg /\ st = MonInit(1) /\ calls = << >>
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
     IN /\ Report(l, Failing(e))
        /\ cfg' = IF e.op = "begin" THEN Prepared(e.cfg) ELSE cfg
        /\ st' = CASE e.op = "begin" -> MonInit(Len(e.cfg.sets))
                   [] e.op = "psf" -> MonPsf(st, e.set, e.flags)
                   [] e.op = "metacal" -> MonMetacal(st, e.set)
                   [] e.op = "color" -> MonKey(st, e.set)
                   [] OTHER -> st
        /\ calls' = CASE e.op = "begin" -> << >>
                      [] e.op = "color" -> Append(calls, e.flux)
                      [] OTHER -> calls
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, cfg, st, calls>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
