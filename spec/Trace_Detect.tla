--------------------------- MODULE Trace_Detect ---------------------------
(* Recorded detections and stamps. *)
EXTENDS Detect, TraceLib
VARIABLE l
S == 1000

(* ---------------------------------------------------------------- D03 *)
CheckDetect(e) ==
  Clause("D03.completes", e.outcome = "ok") \cup Clause("D02.completes", e.outcome = "ok")
  \cup Clause("D03.inputs_unchanged", e.inputs_same = 1)
  \cup Clause("D03.runs_once", Len(e.det) = 1)
  \cup (IF Len(e.det) # 1 THEN {} ELSE
     LET d == e.det[1]
     IN Clause("D03.weighted_average",
           \A i \in DOMAIN d.im : \A j \in DOMAIN d.im[i] : Near(d.im[i][j], DetImageAt(e.bands, i, j), S, 2))
        \cup Clause("D03.noise_level", Near(d.var, DetVar(e.bands), 1000000, 5))
        \cup Clause("D03.ignored_pixels", d.mask = [i \in DOMAIN d.im |-> [j \in DOMAIN d.im[i] |->
                 IF IgnoredAt(e.bands, e.nodet, i, j) THEN 1 ELSE 0]])
        \cup Clause("D03.settings", d.thresh = e.thresh /\ d.config = e.config))
  \cup (IF e.outcome # "ok" THEN {} ELSE
     Clause("D03.one_entry_per_object", Len(e.cat) = Len(e.objs))
     \cup (IF Len(e.cat) # Len(e.objs) THEN {} ELSE
        Clause("D03.order_position_number", \A k \in DOMAIN e.cat :
           /\ e.cat[k].y = 250 * e.objs[k].y /\ e.cat[k].x = 250 * e.objs[k].x
           /\ e.cat[k].number = e.objs[k].number)
        \cup Clause("D03.segmentation", e.seg_same = 1)
        \cup Clause("D03.radius_in_sky_units", \A k \in DOMAIN e.cat :
               Abs(e.cat[k].rad - (e.objs[k].rad4 * 250 * e.scale2) \div 2) <= 2)
        \cup UNION {
           LET o == e.objs[k] c == e.cat[k]
           IN Clause("D02.box_size", c.box \in Boxes(e.meds, o))
              \cup Clause("D02.corner", c.r0 = Start(o.y, c.box) /\ c.c0 = Start(o.x, c.box))
              \cup Clause("D02.end", c.r1 = End(o.y, c.box, Len(e.bands[1].im))
                                     /\ c.c1 = End(o.x, c.box, Len(e.bands[1].im[1])))
           : k \in DOMAIN e.cat}
        \* the same objects extracted from a list of positions and sizes
        \cup Clause("D02.same_box_from_list", Len(e.listed) = Len(e.cat)
               /\ \A k \in DOMAIN e.cat : e.listed[k].box = e.cat[k].box
                     /\ e.listed[k].r0 = e.cat[k].r0 /\ e.listed[k].c0 = e.cat[k].c0
                     /\ e.listed[k].r1 = e.cat[k].r1 /\ e.listed[k].c1 = e.cat[k].c1)))

(* ---------------------------------------------------------------- D01 *)
PlaneOf(b, p) == CASE p = "im" -> b.im [] p = "w" -> b.w [] p = "bm" -> b.bm
                   [] p = "no" -> b.no [] OTHER -> << >>
CheckPlane(e, b, p, got) ==
  LET g == IF p = "seg" THEN e.seg ELSE PlaneOf(e.bands[b], p)
      o == e.obj
  IN IF g = << >> THEN Clause("D01.absent_plane", got = << >>)
     ELSE Clause("D01." \o (CASE p = "im" -> "image" [] p = "w" -> "weight" [] p = "bm" -> "mask"
                              [] p = "no" -> "noise" [] OTHER -> "segmentation"),
                 got = Stamp(g, e.nr, e.nc, o.y, o.x, o.box, p))
CheckBand(e, b) ==
  LET s == e.stamps[b] o == e.obj
      row == 250 * o.y - 1000 * Start(o.y, o.box)
      col == 250 * o.x - 1000 * Start(o.x, o.box)
  IN CheckPlane(e, b, "im", s.im) \cup CheckPlane(e, b, "w", s.w)
     \cup CheckPlane(e, b, "bm", s.bm) \cup CheckPlane(e, b, "no", s.no)
     \cup CheckPlane(e, b, "seg", s.seg)
     \cup Clause("D01.psf", s.psf = e.bands[b].psf)
     \cup (IF s.obs = 0 THEN {} ELSE
        Clause("D01.frame_derivatives", s.jac = e.jac)
        \cup Clause("D01.position_in_stamp", s.row = row /\ s.col = col)
        \cup Clause("D01.observation_is_the_stamp", s.obs_same = 1))
CheckStamp(e) ==
  Clause("D01.completes", e.outcome = "ok")
  \cup Clause("D01.image_unchanged", e.inputs_same = 1)
  \cup (IF e.outcome # "ok" THEN {} ELSE
     Clause("D01.one_stamp_per_band", Len(e.stamps) = Len(e.bands))
     \cup UNION {CheckBand(e, b) : b \in DOMAIN e.stamps})

Failing(e) == CASE e.op = "detect" -> CheckDetect(e)
                [] e.op = "stamp" -> CheckStamp(e)
                [] OTHER -> {"D01.unknown_record", "D02.unknown_record", "D03.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
