--------------------------- MODULE Trace_Measure ---------------------------
(* Recorded measurements of source lists. *)
EXTENDS Measure, TraceLib
VARIABLE l

CheckMeasure(e) ==
  LET kids == SelectSeq(e.cat, LAMBDA s : s.nchild = 0) IN
  IF e.outcome \notin {"ok", "none"} THEN {"L04.completes"}
  ELSE IF kids = << >> THEN Clause("L04.no_children_no_result", e.outcome = "none")
  ELSE IF e.outcome = "none" THEN {"L04.one_row_per_child"}
  ELSE
  LET fr == e.fr
      nb == Len(e.exps)
      ids == RangeOf(e.ids)
      Ix(s) == CHOOSE i \in DOMAIN e.ids : e.ids[i] = s
      mods == TLCEval([b \in 1..nb |-> [s \in ids |-> ModelGrid(e.models[Ix(s)][b], e.ker[b], e.obs, fr)]])
      bare == TLCEval([b \in 1..nb |-> [i \in 1..fr[4] |-> [j \in 1..fr[3] |->
                 Shown(e.exps[b][i][j], [s \in ids |-> mods[b][s][i][j]], ids, << >>)]]])
      Image(b, s) == IF s \in ids THEN [i \in 1..fr[4] |-> [j \in 1..fr[3] |-> bare[b][i][j] + mods[b][s][i][j]]]
                     ELSE bare[b]
      RowOf(s) == {r \in DOMAIN e.rows : e.rows[r].pos = Pos(s)}
      shear == e.shear
      Sums(s) == TLCEval([b \in 1..nb |-> SumGrid(CropTo(Image(b, s.id), fr, StampBox(s.peak, e.size)))])
      RowOk(s) ==
        LET r == e.rows[CHOOSE r \in RowOf(s) : TRUE]
            fate == Fate(s, e.size, fr, e.vars)
            bx == StampBox(s.peak, e.size)
        IN Clause("L04.own_sky_position", r.sky = SkyOf(Pos(s), e.w))
           \cup Clause("L04.own_offset_from_peak", r.off = OffPeak(s))
           \cup Clause("L04.own_mask_value", r.bmask =
                  MinusBits(e.mask[s.peak[2] - fr[2] + 1][s.peak[1] - fr[1] + 1], e.detected))
           \cup Clause("L04.frame_of_the_row", r.origin = << fr[1], fr[2] >> /\ r.size = e.size)
           \cup (IF fate = "ok"
                 THEN LET q == Sums(s)
                          part == [k \in DOMAIN shear |-> q[shear[k] + 1]]
                      IN Clause("L04.good_sources_not_flagged", r.sflags = 0)
                         \cup Clause("L04.measured_on_own_stamp", r.pflags = 0 /\ r.pflux = q)
                         \cup Clause("L04.measured_about_own_position",
                                \A b \in 1..nb : r.pcen[b] = << Pos(s)[1] - PSM * bx[1], Pos(s)[2] - PSM * bx[2] >>)
                         \cup (IF part \in RangeOf(e.failed)
                               THEN Clause("L04.failing_fit_flagged", r.gflags # 0)
                               ELSE Clause("L04.measured_on_own_stamp", /\ r.gflags = 0
                                       /\ [k \in DOMAIN shear |-> r.gflux[shear[k] + 1]] = part
                                       /\ \A b \in 1..nb : (b - 1) \notin RangeOf(shear) => r.gflux[b] = NAN))
                 ELSE Clause("L04.failed_stamps_flagged_with_the_reason",
                         r.sflags = IF fate = "edge" THEN EDGE_HIT ELSE ZERO_WEIGHTS)
                      \cup Clause("L04.failed_stamps_not_attempted",
                         /\ \A f \in RangeOf(r.attempt) : f = NO_ATTEMPT
                         /\ \A b \in 1..nb : r.pflux[b] = NAN /\ r.gflux[b] = NAN
                         /\ \A x \in RangeOf(r.values) : x = NAN))
  IN Clause("L04.one_row_per_child", /\ Len(e.rows) = Len(kids)
                                     /\ \A k \in DOMAIN kids : Cardinality(RowOf(kids[k])) = 1)
     \cup Clause("L04.inputs_kept", e.same = 1)
     \cup UNION {IF RowOf(kids[k]) = {} THEN {} ELSE RowOk(kids[k]) : k \in DOMAIN kids}

Failing(e) == CASE e.op = "measure" -> CheckMeasure(e)
                [] OTHER -> {"L04.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
