--------------------------- MODULE Trace_BandMask ---------------------------
(* Recorded edge and bright star maskings of multi-band exposures. *)
EXTENDS BandMask, TraceLib
VARIABLE l

Rows(n) == 0..(n - 1)
MulV(v, m) == ((v \div 4) * m) \div (S \div 4)
TolV == 90
(* a pixel whose distance is within rounding of the kernel's ends may be either *)
CheckStep(e) ==
  LET nr == e.nr nc == e.nc b == e.before a == e.after
      op == OpOf(e.step, e.ox, e.oy)
      Z == HitBy(e.step, e.ox, e.oy, nr, nc)
      G == GrownBy(e.step, e.ox, e.oy, nr, nc, EXPAND)
      m == MaskOf(op, nr, nc)
      Pix(P(_)) == \A r \in Rows(nr) : \A c \in Rows(nc) : P(<<r, c>>)
      Shapes(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : NRow(x[k]) = NRow(y[k]) /\ NCol(x[k]) = NCol(y[k])
      Times(x, y) == Pix(LAMBDA p : p \in Z =>
                        Abs(Cell(y, p[1], p[2]) - MulV(Cell(x, p[1], p[2]), m[p[1]][p[2]])) <= TolV)
      Kept(x, y) == Pix(LAMBDA p : p \notin Z => Cell(y, p[1], p[2]) = Cell(x, p[1], p[2]))
      Vars(x, y) == Pix(LAMBDA p : Cell(y, p[1], p[2]) = IF p \in Z THEN INF ELSE Cell(x, p[1], p[2]))
      Bits(x, y) == Pix(LAMBDA p : Cell(y, p[1], p[2]) = MaskedBits(e.step, Z, G, p, e.bits, Cell(x, p[1], p[2])))
      Fracs(x, y) == Pix(LAMBDA p : Cell(y, p[1], p[2]) = IF p \in Z THEN 1000 ELSE Cell(x, p[1], p[2]))
  IN IF e.outcome # "ok" THEN {"L03.completes"}
     ELSE IF \E k \in {"im", "nim", "mf", "om"} : ~Shapes(b[k], a[k]) THEN {"L03.products_keep_their_shape"}
     ELSE Clause("L03.untouched_outside", /\ \A k \in DOMAIN b.im : Kept(b.im[k], a.im[k])
                                          /\ \A k \in DOMAIN b.nim : Kept(b.nim[k], a.nim[k]))
       \cup Clause("L03.image_multiplied_once", \A k \in DOMAIN b.im : Times(b.im[k], a.im[k]))
       \cup Clause("L03.noise_multiplied_once", \A k \in DOMAIN b.nim : Times(b.nim[k], a.nim[k]))
       \cup Clause("L03.variance_infinite_in_zone", /\ \A k \in DOMAIN b.var : Vars(b.var[k], a.var[k])
                                                    /\ \A k \in DOMAIN b.nvar : Vars(b.nvar[k], a.nvar[k]))
       \cup Clause("L03.mask_bits", /\ \A k \in DOMAIN b.mask : Bits(b.mask[k], a.mask[k])
                                    /\ \A k \in DOMAIN b.nmask : Bits(b.nmask[k], a.nmask[k]))
       \cup Clause("L03.ormask_bits", \A k \in DOMAIN b.om : Bits(b.om[k], a.om[k]))
       \cup Clause("L03.masked_fraction_one_in_zone", \A k \in DOMAIN b.mf : Fracs(b.mf[k], a.mf[k]))
       \cup Clause("L03.named_planes", Cardinality({e.bits.edge, e.bits.bright, e.bits.expanded} \ {0}) = 3)
       \cup Clause("L03.stars_unchanged", e.inputs_same = 1)

Failing(e) == CASE e.op = "bandmask" -> CheckStep(e)
                [] OTHER -> {"L03.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
