-------------------------- MODULE Trace_ShearPos --------------------------
(* Recorded calls of the position mapping, judged against ShearPos. *)
EXTENDS ShearPos, TraceLib
VARIABLE l

S == 1000
TOL == 3
JacOf(e) == [vr |-> e.jac.vr, vc |-> e.jac.vc, ur |-> e.jac.ur, uc |-> e.jac.uc,
             jd |-> e.jac.jd, row0 |-> <<e.jac.row0[1], e.jac.row0[2]>>,
             col0 |-> <<e.jac.col0[1], e.jac.col0[2]>>]
Mapped(e, i) ==
  LET p == << Q(e.rows[i], 2), Q(e.cols[i], 2) >>
  IN IF e.op = "shear" THEN ShearAt(p, e.type, e.step, JacOf(e), e.dims)
                       ELSE UnshearAt(p, e.type, e.step, JacOf(e), e.dims)

CheckMap(e) ==
  IF ~KnownType(e.type)
  THEN Clause("M07.unknown_type_rejected", e.outcome = "raise:ValueError")
  ELSE Clause("M07.outcome", e.outcome = "ok")
       \cup (IF e.outcome # "ok" THEN {} ELSE
         Clause("M07.shape", Len(e.orows) = Len(e.rows) /\ Len(e.ocols) = Len(e.cols))
         \cup Clause("M07." \o e.op \o "_position",
                \A i \in DOMAIN e.rows :
                  i \in DOMAIN e.orows /\ i \in DOMAIN e.ocols =>
                    LET q == Mapped(e, i)
                    IN Near(e.orows[i], q[1], S, TOL) /\ Near(e.ocols[i], q[2], S, TOL))
         \cup Clause("M07.inputs_unchanged", e.inputs_same = 1))

(* a row of a catalogue: detected at (row, col), reported unsheared position *)
CheckRow(e) ==
  LET q == UnshearAt(<< Q(e.row, 2), Q(e.col, 2) >>, e.type, e.step, JacOf(e), e.dims)
  IN Clause("M07.catalogue_position",
       Near(e.orow, q[1], S, TOL) /\ Near(e.ocol, q[2], S, TOL))

Failing(e) == CASE e.op \in {"shear", "unshear"} -> CheckMap(e)
                [] e.op = "row" -> CheckRow(e)
                [] OTHER -> {"M07.unknown_record"}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
