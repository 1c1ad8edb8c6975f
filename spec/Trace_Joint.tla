--------------------------- MODULE Trace_Joint ---------------------------
(* Recorded coadds, symmetrisations and joint measurements. *)
EXTENDS Joint, TraceLib
VARIABLE l
S == 1000

(* ---------------------------------------------------------------- F04 *)
PlaneAbsent(g) == g = << >>
CheckPlane(e, p, g) ==
  IF Plane(Listed(e)[1], p) = << >> THEN Clause("F04.plane_appears", g = << >>)
  ELSE IF g = << >> THEN {"F04.plane_lost"}
  ELSE IF ~SameShape(g, Plane(Listed(e)[1], p)) THEN {"F04.shape"}
  ELSE Clause("F04.weighted_mean",
         \A i \in DOMAIN g : \A j \in DOMAIN g[i] : Near(g[i][j], ValAt(e, p, i, j), S, 2))
CheckMask(e, p, g) ==
  IF Plane(Listed(e)[1], p) = << >> THEN Clause("F04.plane_appears", g = << >>)
  ELSE IF g = << >> THEN {"F04.plane_lost"}
  ELSE Clause("F04.mask_or", g = [i \in DOMAIN g |-> [j \in DOMAIN g[i] |->
         IF Single(e) THEN Plane(Listed(e)[1], p)[i][j] ELSE OrAt(e, p, i, j)]])
CheckCoadd(e) ==
  LET o == e.out fl == CoaddFlags(e)
  IN Clause("F04.inputs_unchanged", e.inputs_same = 1)
     \cup Clause("F04.completes", e.outcome = "ok")
     \cup (IF e.outcome # "ok" THEN {} ELSE
       Clause("F04.refusal_flag", e.flags = fl)
       \cup Clause("F04.refused_gives_nothing", (fl # 0) = (o.given = 0))
       \cup (IF fl # 0 \/ o.given = 0 THEN {} ELSE
          CheckPlane(e, "im", o.im) \cup CheckPlane(e, "mf", o.mf) \cup CheckPlane(e, "no", o.no)
          \cup CheckPlane(e, "psf", o.psf)
          \cup CheckMask(e, "bm", o.bm) \cup CheckMask(e, "om", o.om)
          \cup Clause("F04.frame", o.jac = Listed(e)[1].jac /\ o.pjac = Listed(e)[1].pjac)
          \cup Clause("F04.metadata", RangeOf(o.meta) = MetaWant(e))
          \cup Clause("F04.psf_metadata", Listed(e)[1].psf # << >> => RangeOf(o.pmeta) = PsfMetaWant(e))
          \cup Clause("F04.psf_weight", o.pw = 1)
          \cup Clause("F04.weight", SameShape(o.w, Listed(e)[1].w)
                 /\ \A i \in DOMAIN o.w : \A j \in DOMAIN o.w[i] :
                      Near(o.w[i][j], WgtAt(e, i, j), S, 2))
          \cup Clause("F04.zero_weight_exactly", \A i \in DOMAIN o.w : \A j \in DOMAIN o.w[i] :
                      (o.w[i][j] = 0) = (WgtAt(e, i, j)[1] <= 0))))

(* ---------------------------------------------------------------- F05 *)
CheckSym(e) ==
  Clause("F05.completes", e.outcome = "ok")
  \cup Clause("F05.inputs_unchanged", e.inputs_same = 1)
  \cup (IF e.outcome # "ok" THEN {} ELSE
    Clause("F05.rotations_of_zero_weight", e.out = SymWeight(e.w))
    \cup Clause("F05.idempotent", e.again = e.out)
    \cup Clause("F05.other_planes_unchanged", e.planes_same = 1)
    \cup Clause("F05.copy", e.copied = 1))

(* ---------------------------------------------------------------- F03 *)
Scal(x, q) == Near(x, q, S, 3)
CheckValues(e, r) ==
  Clause("F03.psf_values",
    IF PsfFilled(e)
    THEN Scal(r.pT, PsfT(e)) /\ Scal(r.pg1, PsfG(e, G1)) /\ Scal(r.pg2, PsfG(e, G2_))
    ELSE \/ r.pT = NAN /\ r.pg1 = NAN /\ r.pg2 = NAN)
  \cup Clause("F03.shape_values",
    IF ShapeFilled(e) THEN r.g1 = e.obj.g1 * 10 /\ r.g2 = e.obj.g2 * 10 /\ r.s2n = e.obj.s2n * S
                           /\ r.gc = 10 * S
    ELSE r.g1 = NAN /\ r.g2 = NAN /\ r.s2n = NAN /\ r.gc = NAN)
  \cup Clause("F03.size_values",
    IF SizeFilled(e) THEN r.T = e.obj.T * S /\ r.Te = e.obj.Terr * S ELSE r.T = NAN /\ r.Te = NAN)
  \cup Clause("F03.size_ratio",
    IF RatioFilled(e) THEN Scal(r.Tr, QDiv(QI(e.obj.T), PsfT(e))) ELSE r.Tr = NAN)
  \cup Clause("F03.band_flux", \A b \in DOMAIN e.bands :
      IF FluxDone(e, b) /\ e.obj.flags = 0
      THEN Scal(r.flux[b], FluxQ(e, b)) /\ Scal(r.ferr[b], QMul(FluxQ(e, b), Q(1, 10)))
      ELSE r.flux[b] = NAN /\ r.ferr[b] = NAN)

(* the data which reached the object fit *)
FitGrid(e, p, n, i, j) == IF Coadds(e) THEN (IF p = "w" THEN WgtAt(e, i, j) ELSE ValAt(e, p, i, j))
                          ELSE QI(IF p = "w" THEN Listed(e)[n].w[i][j] ELSE Plane(Listed(e)[n], p)[i][j])
Pos01(e) == LET g == Listed(e)[1].w
            IN [i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> IF WgtAt(e, i, j)[1] > 0 THEN 1 ELSE 0]]
KeepAt(e, i, j) == IF e.kind = "am" /\ e.symm = 1 THEN SymWeight(Pos01(e))[i][j] = 1 ELSE TRUE
CheckCalls(e) ==
  IF Outcome(e) = "refused" \/ PsfRaises(e) \/ (e.kind = "gauss" /\ PsfAllBad(e))
  THEN Clause("F03.measured_unusable_data", e.calls = << >>)
  ELSE IF e.calls = << >> THEN {"F03.not_measured"}
  ELSE UNION {
    LET cl == e.calls[k]
    IN IF Len(cl.im) # (IF Coadds(e) THEN 1 ELSE Len(e.shear)) THEN {"F03.bands_used"}
       ELSE Clause("F03.data_used", \A n \in DOMAIN cl.im : \A i \in DOMAIN cl.im[n] :
              \A j \in DOMAIN cl.im[n][i] :
                 /\ Near(cl.im[n][i][j], FitGrid(e, "im", n, i, j), S, 3)
                 /\ Near(cl.w[n][i][j],
                         IF KeepAt(e, i, j) THEN FitGrid(e, "w", n, i, j) ELSE QI(0), S, 3))
    : k \in DOMAIN e.calls}

CheckJoint(e) ==
  Clause("F03.completes", e.outcome = "ok")
  \cup Clause("F03.inputs_unchanged", e.inputs_same = 1)
  \cup (IF e.outcome # "ok" THEN {} ELSE
    LET r == e.res
    IN Clause("F03.flags", r.flags \in Overall(e))
       \cup Clause("F03.psf_flags", r.pf = PsfFlag(e))
       \cup Clause("F03.obj_flags", r.of = ObjFlag(e))
       \cup Clause("F03.size_flags", r.Tf = TFlag(e))
       \cup Clause("F03.flux_flags", Len(r.ff) = Len(e.bands)
                   /\ \A b \in DOMAIN e.bands : r.ff[b] = FluxFlag(e, b))
       \cup Clause("F03.shear_bands", r.sb = e.label)
       \cup CheckValues(e, r) \cup CheckCalls(e))

Failing(e) == CASE e.op = "joint" -> CheckJoint(e)
                [] e.op = "coadd" -> CheckCoadd(e)
                [] e.op = "sym" -> CheckSym(e)
                [] OTHER -> {"F03.unknown_record", "F04.unknown_record", "F05.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
