-------------------------- MODULE Trace_Masking --------------------------
EXTENDS Masking, Interp, TraceLib
VARIABLE l

Rows(n) == 0..(n - 1)
AllPix(e, P(_, _)) == \A r \in Rows(e.nr) : \A c \in Rows(e.nc) : P(r, c)

(* ---- K01 ---- *)
CheckBmask(e) ==
  IF e.outcome # "ok" THEN {"K01.completes"}
  ELSE IF Len(e.got) # e.nr \/ Len(e.got[1]) # e.nc THEN {"K01.shape"}
  ELSE LET M == Marked(e.holes, e.nr, e.nc, 0) MS == Marked(e.holes, e.nr, e.nc, e.sym)
           V(r, c) == Cell(e.got, r, c)
       IN Clause("K01.marks_pixels_in_a_hole", AllPix(e, LAMBDA r, c : <<r, c>> \in M => V(r, c) = e.flag))
          \cup Clause("K01.marks_nothing_else",
                 AllPix(e, LAMBDA r, c : <<r, c>> \notin MS => V(r, c) = 0))
          \cup Clause("K01.quarter_turn",
                 AllPix(e, LAMBDA r, c : <<r, c>> \in MS \ M => V(r, c) = e.flag))
          \cup Clause("K01.inputs_unchanged", e.inputs_same = 1)
CheckExpand(e) ==
  IF e.outcome # "ok" THEN {"K01.completes"}
  ELSE LET M == Marked(Grown(e.holes, e.expand), e.nr, e.nc, e.sym)
       IN Clause("K01.enlarged_radius_sets_its_bit", \A b \in DOMAIN e.got : AllPix(e, LAMBDA r, c :
                 Cell(e.got[b], r, c) = IF <<r, c>> \in M THEN OrBits(Cell(e.plain[b], r, c), e.ebit)
                                        ELSE Cell(e.plain[b], r, c)))
          \cup Clause("K01.enlarged_radius_changes_nothing_else", e.rest_same = 1)

(* ---- K02 ---- *)
TolM == 25
CheckEdge(e) ==
  IF e.outcome # "ok" THEN {"K02.completes"}
  ELSE LET V(r, c) == Cell(e.got, r, c)
       IN Clause("K02.edge_profile_product",
            AllPix(e, LAMBDA r, c : Abs(V(r, c) - EdgeMask(e.h, e.nr, e.nc, r, c)) <= TolM))
          \cup Clause("K02.between_zero_and_one", AllPix(e, LAMBDA r, c : V(r, c) >= 0 /\ V(r, c) <= S))
          \cup Clause("K02.one_inside", AllPix(e, LAMBDA r, c :
                 (~EdgeZone(e.h, e.nr, r) /\ ~EdgeZone(e.h, e.nc, c)) => V(r, c) = S))
          \cup Clause("K02.image_and_noise_alike", e.alike = 1)
CheckApmask(e) ==
  IF e.outcome # "ok" THEN {"K02.completes"}
  ELSE IF Len(e.got) # e.nr \/ Len(e.got[1]) # e.nc THEN {"K02.shape"}
  ELSE LET V(r, c) == Cell(e.got, r, c)
       IN Clause("K02.hole_kernel",
            AllPix(e, LAMBDA r, c : Abs(V(r, c) - HoleMask(e.holes, e.h, e.nr, e.sym, r, c)) <= TolM))
          \cup Clause("K02.between_zero_and_one", AllPix(e, LAMBDA r, c : V(r, c) >= 0 /\ V(r, c) <= S))
          \cup Clause("K02.one_outside_holes",
                 AllPix(e, LAMBDA r, c : <<r, c>> \notin Marked(e.holes, e.nr, e.nc, e.sym) => V(r, c) = S))
          \cup Clause("K02.inputs_unchanged", e.inputs_same = 1)

(* ---- K03 ---- *)
MulV(v, m) == ((v \div 4) * m) \div (S \div 4)
TolV == 90
Planes == {"im", "no", "w", "bm", "mf"}
CheckStep(e) ==
  LET op == e.step nr == e.nr nc == e.nc
      Z == Zone(op, nr, nc)
      m == MaskOf(op, nr, nc)
      all == Z = Everything(nr, nc)
      B(b, p, r, c) == Cell(e.before[b][p], r, c)
      A(b, p, r, c) == Cell(e.after[b][p], r, c)
      Bands == DOMAIN e.before
      Shape == \A b \in Bands : \A p \in Planes : Len(e.after[b][p]) = Len(e.before[b][p])
      Each(P(_, _, _)) == \A b \in Bands : \A r \in Rows(nr) : \A c \in Rows(nc) : P(b, r, c)
      In(r, c) == <<r, c>> \in Z
  IN IF e.outcome # "ok" THEN {"K03.completes"}
     ELSE IF ~Shape THEN {"K03.planes_stay_or_stay_absent"}
     ELSE Clause("K03.untouched_outside", Each(LAMBDA b, r, c : ~In(r, c) =>
                 A(b, "im", r, c) = B(b, "im", r, c) /\ A(b, "no", r, c) = B(b, "no", r, c)))
       \cup (IF IsInterp(op) THEN {}
             ELSE Clause("K03.image_multiplied_by_mask", Each(LAMBDA b, r, c :
                     In(r, c) => Abs(A(b, "im", r, c) - MulV(B(b, "im", r, c), m[r][c])) <= TolV))
               \cup Clause("K03.noise_multiplied_by_mask", Each(LAMBDA b, r, c :
                     In(r, c) => Abs(A(b, "no", r, c) - MulV(B(b, "no", r, c), m[r][c])) <= TolV)))
       \cup (IF ~IsInterp(op) THEN {}
             ELSE Clause("K03.interpolated_values_are_numbers", Each(LAMBDA b, r, c :
                     IsNum(A(b, "im", r, c)) /\ IsNum(A(b, "no", r, c))))
               \cup (IF all THEN Clause("K03.nothing_to_interpolate_from", Each(LAMBDA b, r, c :
                        A(b, "im", r, c) = B(b, "im", r, c)))
                     ELSE IF e.lin = << >> \/ op.what # "interp" THEN {}
                     ELSE LET G == Near_(Z, nr, nc, 4)
                          IN Clause("K03.interpolated_within_its_own_plane", \A p \in Z :
                              LET in == InsideHull(p, G) out == OutsideHull(p, G)
                              IN \A b \in Bands :
                              LET L == e.lin[b] IN
                              /\ in =>
                                   /\ Abs(A(b, "im", p[1], p[2]) - 1000 * Linear(L.im, p)) <= 50
                                   /\ Abs(A(b, "no", p[1], p[2]) - 1000 * Linear(L.no, p)) <= 50
                              /\ out => A(b, "im", p[1], p[2]) = 0 /\ A(b, "no", p[1], p[2]) = 0)))
       \cup Clause("K03.weight_zero_exactly_in_zone", Each(LAMBDA b, r, c :
              A(b, "w", r, c) = WeightAfter(Z, r, c, B(b, "w", r, c))))
       \cup Clause("K03.mask_bits", Each(LAMBDA b, r, c :
              A(b, "bm", r, c) = BitsAfter(op, nr, nc, Z, r, c, B(b, "bm", r, c))))
       \cup Clause("K03.masked_fraction_one_in_zone", \A b \in Bands : e.before[b].mf = << >>
              \/ \A r \in Rows(nr) : \A c \in Rows(nc) :
                   A(b, "mf", r, c) = MfracAfter(Z, r, c, B(b, "mf", r, c), 1000))
       \cup Clause("K03.noise_fill_level", \A b \in Bands :
              (op.what = "interp-noise" /\ ~all) => \A k \in DOMAIN e.draws[b] :
                 \* each plane is filled at the level of this band's usable weights
                 LET wts == Flat([r \in 1..nr |-> [c \in 1..nc |-> A(b, "w", r - 1, c - 1)]])
                     pos == SelectSeq(wts, LAMBDA x : x > 0)
                 IN pos # << >> => Abs(e.draws[b][k].scale2inv - Median2(pos)) <= 2)

CheckBadMethod(e) == Clause("K03.unknown_method_rejected", e.outcome = "raise:RuntimeError")
  \cup Clause("K03.unknown_method_changes_nothing", e.same = 1)

(* ---- K04 ---- *)
ToSet(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
CheckInterp(e) ==
  LET bad == ToSet(e.bad) nr == e.nr nc == e.nc
      want == Outcome(bad, nr, nc, e.maxnum, e.maxden, e.noise, e.hasrng, e.hasw)
      iso == IF e.noise = 1 THEN Isolated(bad, nr, nc, e.iso) ELSE {}
      rest == bad \ iso
      G == Near_(rest, nr, nc, e.buff)
      V(p) == Cell(e.out, p[1], p[2])
  IN Clause("K04.inputs_unchanged", e.inputs_same = 1)
     \cup (IF want = "none" THEN Clause("K04.declines", e.outcome = "none")
           ELSE IF want = "error" THEN Clause("K04.refuses_noise_without_source", e.outcome = "raise:RuntimeError")
           ELSE IF e.outcome # "image" THEN {"K04.interpolates"}
           ELSE Clause("K04.unmasked_identical", e.good_same = 1)
             \cup Clause("K04.isolated_are_noise",
                    /\ Len(e.draws) = IF iso = {} THEN 0 ELSE 1
                    /\ iso # {} => /\ e.draws[1].n = Cardinality(iso)
                                   /\ Abs(e.draws[1].scale2inv - 1000 * e.weight) <= 2
                                   /\ \A v \in RangeOf(e.draws[1].vals) \cup {V(p) : p \in iso} :
                                        Cardinality({k \in DOMAIN e.draws[1].vals : e.draws[1].vals[k] = v})
                                        = Cardinality({p \in iso : V(p) = v}))
             \cup (IF e.lin = << >> THEN {}
                   ELSE Clause("K04.linear_exact_in_hull", \A p \in rest :
                          InsideHull(p, G) => Abs(V(p) - 1000 * Linear(e.lin, p)) <= 60))
             \cup Clause("K04.zero_outside_hull", \A p \in rest : OutsideHull(p, G) => V(p) = 0)
             \cup Clause("K04.depends_only_on_near_unmasked", e.pair_same = 1))

Failing(e) == CASE e.op = "bmask" -> CheckBmask(e)
                [] e.op = "expand" -> CheckExpand(e)
                [] e.op = "edge" -> CheckEdge(e)
                [] e.op = "apmask" -> CheckApmask(e)
                [] e.op = "step" -> CheckStep(e)
                [] e.op = "badmethod" -> CheckBadMethod(e)
                [] e.op = "interp" -> CheckInterp(e)
                [] OTHER -> {"K01.unknown_record", "K02.unknown_record", "K03.unknown_record", "K04.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
