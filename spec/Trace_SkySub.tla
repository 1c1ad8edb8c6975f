---------------------------- MODULE Trace_SkySub ----------------------------
(* Recorded runs of sky subtraction. *)
EXTENDS SkySub, TraceLib
VARIABLE l

DEFTHR == 5
Thr(e) == IF e.thr < 0 THEN DEFTHR ELSE e.thr
(* the events a band's run must show *)
EventsOk(e, ev) == \A i \in DOMAIN ev :
  IF ev[i].t = "back" THEN ev[i].ign = e.planes
  ELSE ev[i].thr = 4 * Thr(e) /\ ev[i].re = 0
Order(s) == [i \in 1..(s.backs + s.detects) |-> IF i % 2 = 1 THEN "back" ELSE "detect"]
Check(e) ==
  IF e.api = "one"
  THEN LET b == e.bands[1] fail == Usable(b, e.ignored) = {} IN
    IF fail THEN Clause("L11.once", e.outcome = "raise:RuntimeError" /\ e.after[1].im = b.im)
    ELSE Clause("L11.once", e.outcome = "ok" /\ e.after[1].im = Lowered(b, Level(b, e.ignored)).im
                            /\ e.after[1].mask = b.mask /\ EventsOk(e, e.seen[1].ev) /\ Len(e.seen[1].ev) = 1)
  ELSE IF e.niter < 1
  THEN Clause("L11.too_few_iterations", e.outcome = "raise:ValueError"
              /\ \A k \in DOMAIN e.bands : e.after[k].im = e.bands[k].im /\ e.seen[k].ev = << >>)
  ELSE IF e.outcome # "ok" THEN {"L11.completes"}
  ELSE LET run == TLCEval([k \in DOMAIN e.bands |->
                 RunBand(e.bands[k], e.niter, e.faults[k], e.ignored, Thr(e), e.det)])
           failed == {k \in DOMAIN run : run[k].stop = 1}
  IN UNION {LET s == run[k] a == e.after[k] ev == e.seen[k].ev IN
       Clause("L11.steps_alternate", [i \in DOMAIN ev |-> ev[i].t] = Order(s))
       \cup Clause("L11.settings_of_steps", EventsOk(e, ev))
       \cup Clause("L11.image_minus_backgrounds", a.im = s.b.im /\ a.var_same = 1)
       \cup Clause("L11.mask_of_last_detection", a.mask = s.b.mask)
       \cup Clause("L11.sum_recorded", s.stop = 0 => a.bg = << s.sum >>)
       : k \in DOMAIN run}
     \cup Clause("L11.failure_warns", e.warned >= Cardinality(failed))
     \cup Clause("L11.failure_gives_nothing", (e.api # "mbexp" /\ failed # {}) => e.none = 1)
     \cup Clause("L11.last_detections_returned", (e.api # "mbexp" /\ failed = {}) =>
            e.result = << "band0", e.niter >>)

Failing(e) == CASE e.op = "skysub" -> Check(e)
                [] OTHER -> {"L11.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
