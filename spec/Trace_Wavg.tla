---------------------------- MODULE Trace_Wavg ----------------------------
(* Recorded band-averaged measurements, judged against Wavg. *)
EXTENDS Wavg, TraceLib
VARIABLE l
S == 1000
(* weights without normalisation (norm 0) make the object's moments undefined *)
Sane(e) == \A b \in Shear(e) : Present(e.bands[b], e.symm) => e.bands[b].obj.norm # 0

CheckFlags(e) ==
  LET r == e.res
  IN Clause("F01.psf_flags", r.pf = PsfFlags(e))
     \cup (IF ~Sane(e) THEN {} ELSE
            Clause("F01.obj_flags", r.of = ObjFlags(e))
            \cup Clause("F01.flags", r.flags = AllFlags(e)))
     \cup Clause("F01.psf_failure_bit", r.pf = 0 \/ AndBits(r.of, PSF_FAILURE) # 0)
     \cup Clause("F01.flags_are_union",
            r.flags = OrBits(r.of, OrSeq(r.ff)))
     \cup Clause("F01.flux_flags", Len(r.ff) = Max2(1, Len(e.bands))
            /\ \A b \in DOMAIN e.bands : r.ff[b] = FluxFlagsOf(e, b))

CheckValues(e) ==
  LET r == e.res
      oT == SumM(e, ObjFac, Obj, 5)
      oF == SumM(e, ObjFac, Obj, 6)
      pT == SumM(e, PsfFac, Psf, 5)
      pF == SumM(e, PsfFac, Psf, 6)
      Tq == QDiv(oT, oF)
      rT == IF e.treg > 0 THEN RegT(e) ELSE oT
      tol == IF e.treg > 0 THEN 6 ELSE 3
  IN (IF PsfPre(e) # 0
      THEN Clause("F02.undefined_values", r.pT = NAN /\ r.pg1 = NAN /\ r.pg2 = NAN)
      ELSE IF PsfMom(e) # 0 THEN {}
      ELSE Clause("F02.psf_size", Near(r.pT, QDiv(pT, pF), S, 3))
           \cup Clause("F02.psf_shape", Near(r.pg1, QDiv(SumM(e, PsfFac, Psf, 3), pT), S, 3)
                       /\ Near(r.pg2, QDiv(SumM(e, PsfFac, Psf, 4), pT), S, 3)))
     \cup (IF ObjPre(e) # 0
      THEN Clause("F02.undefined_values", r.T = NAN /\ r.g1 = NAN /\ r.g2 = NAN /\ r.s2n2 = NAN
                                          /\ r.Tr = NAN)
      ELSE (IF TFlags(e, ObjFac, Obj) = 0
            THEN Clause("F02.size", Near(r.T, Tq, S, 3))
                 \cup Clause("F02.size_flags", r.Tf = 0)
            ELSE Clause("F02.size_flags", r.Tf = TFlags(e, ObjFac, Obj) /\ r.T = NAN))
           \cup (IF ObjMom(e) = 0
                 THEN Clause("F02.shape", Near(r.g1, QDiv(SumM(e, ObjFac, Obj, 3), rT), S, tol)
                             /\ Near(r.g2, QDiv(SumM(e, ObjFac, Obj, 4), rT), S, tol))
                 ELSE {})
           \cup (IF FluxVarSum(e, Obj) > 0
                 THEN Clause("F02.s2n",
                        Near(r.s2n2, Q(FluxSum(e, Obj) * FluxSum(e, Obj), FluxVarSum(e, Obj)), 100, 3)
                        /\ r.s2npos = (IF FluxSum(e, Obj) >= 0 THEN 1 ELSE 0))
                 ELSE Clause("F02.s2n", r.s2n2 = NAN))
           \cup (IF PsfFlags(e) = 0 /\ TFlags(e, ObjFac, Obj) = 0
                 THEN Clause("F02.size_ratio", Near(r.Tr, QDiv(Tq, QDiv(pT, pF)), S, 3))
                 ELSE {}))

(* errors, when the bands share one normalisation (it then cancels) *)
Uniform(e) == \A b, c \in Shear(e) : NormOf(e.bands[b].obj) = NormOf(e.bands[c].obj)
WS(e, i) == LET sb == ShearSeq(e)
            IN SumSeq([n \in DOMAIN sb |-> W2(e.bands[sb[n]], e.symm) * e.bands[sb[n]].obj.s[i]])
WC(e, i) == LET sb == ShearSeq(e)
            IN SumSeq([n \in DOMAIN sb |-> W2(e.bands[sb[n]], e.symm) * W2(e.bands[sb[n]], e.symm)
                                            * e.bands[sb[n]].obj.cov[i]])
Close(x, y) == IsNum(x) /\ Abs(x - y) <= 4 + Abs(y) \div 50
CheckErrors(e) ==
  LET r == e.res
      T3 == Scaled(Q(WS(e, 5), WS(e, 6)), 1000)
      A == Scaled(Q(WC(e, 5), WS(e, 6) * WS(e, 6)), 10000)
      B == Scaled(Q(WC(e, 6), WS(e, 6) * WS(e, 6)), 100000)
      E3 == Scaled(Q(WS(e, 3), WS(e, 5)), 1000)
      C == Scaled(Q(WC(e, 3), WS(e, 5) * WS(e, 5)), 1000000)
      D == Scaled(Q(WC(e, 5), WS(e, 5) * WS(e, 5)), 1000000)
  IN IF ObjPre(e) # 0 \/ ObjMom(e) # 0 \/ ~Uniform(e) THEN {}
     ELSE Clause("F02.size_error", T3 > 20000 \/ Close(r.Te2, A + (((T3 * T3) \div 10000) * B) \div 1000))
          \cup Clause("F02.shape_error",
                 e.treg > 0 \/ Close(r.gc, C + (((E3 * E3) \div 1000) * D) \div 1000))

CheckFlux(e) ==
  \* fluxes are reported for all bands, shear band or not
  LET r == e.res
  IN Clause("F02.band_flux",
       \A b \in DOMAIN e.bands :
         LET bd == e.bands[b]
             ok == ~NoBands(e) /\ Present(bd, e.symm) /\ bd.obj.hasflux = 1
         IN IF ok THEN r.flux[b] = bd.obj.flux * S /\ r.ferr[b] = bd.obj.ferr * S
            ELSE r.flux[b] = NAN /\ r.ferr[b] = NAN)

Check(e) ==
  Clause("F01.completes", e.outcome = "ok") \cup Clause("F02.completes", e.outcome = "ok")
  \cup (IF e.outcome # "ok" THEN {} ELSE
         CheckFlags(e)
         \cup (IF Sane(e) THEN CheckValues(e) \cup CheckErrors(e) ELSE {})
         \cup CheckFlux(e)
         \cup Clause("F02.shear_band_label", e.res.sb = e.label)
         \cup Clause("F01.inputs_unchanged", e.inputs_same = 1))

Failing(e) == CASE e.op = "wavg" -> Check(e)
                [] OTHER -> {"F01.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
