-------------------------- MODULE Trace_Combine --------------------------
EXTENDS Combine, TraceLib
VARIABLE l

CheckCombine(e) ==
  LET want == CombineOutcome(e.parts) o == e.out
  IN Clause("F06.inputs_unchanged", e.inputs_same = 1)
     \cup (CASE want = "refused" -> Clause("F06.same_columns_refused", e.outcome # "ok")
            [] want = "error" -> Clause("F06.mismatch_refused", e.outcome = "raise:RuntimeError")
            [] want = "none" -> Clause("F06.all_missing_gives_nothing", e.outcome = "ok" /\ o.none = 1)
            [] want = "same" -> Clause("F06.single_passes_through",
                  e.outcome = "ok" /\ o.none = e.parts[1].none
                  /\ (o.none = 1 \/ (o.n = e.parts[1].n /\ o.cols = e.parts[1].cols
                                     /\ o.sb = e.parts[1].sb /\ o.vals = e.parts[1].vals)))
            [] want = "table" ->
                 IF e.outcome # "ok" \/ o.none = 1 THEN {"F06.table"}
                 ELSE Clause("F06.rows", o.n = Rows(e.parts))
                  \cup Clause("F06.columns_once", RangeOf(o.cols) = RangeOf(AllOwn(e.parts, 1)) \cup {Shared}
                         /\ Len(o.cols) = Len(AllOwn(e.parts, 1)) + 1)
                  \cup Clause("F06.columns_unchanged", \A i \in Some(e.parts) :
                         \A k \in DOMAIN Own(e.parts[i]) :
                            LET c == Own(e.parts[i])[k]
                            IN c \in RangeOf(o.cols) => o.vals[c] = e.parts[i].vals[c])
                  \cup Clause("F06.shear_bands", \A i \in Some(e.parts) : o.sb = e.parts[i].sb))

CheckList(e) ==
  Clause("F06.list_completes", e.outcome = "ok")
  \cup (IF e.outcome # "ok" THEN {}
        ELSE IF e.want = << >> THEN Clause("F06.empty_list_gives_nothing", e.none = 1)
        ELSE Clause("F06.one_row_per_object_in_order", e.none = 0 /\ e.got = e.want))

CheckPsfs(e) ==
  Clause("F07.every_psf_once_in_order", FitOrder(e.bands, e.fits))
  \cup Clause("F07.failure_raised", e.outcome = FitOutcome(e.bands, e.fits))
  \cup Clause("F07.result_stored", \A b \in DOMAIN e.bands :
         e.stored[b] = IF Fitted(e.fits, b) = {} THEN -1 ELSE e.fits[MaxSet(Fitted(e.fits, b))].id)
  \cup Clause("F07.inputs_unchanged", e.inputs_same = 1)

Failing(e) == CASE e.op = "combine" -> CheckCombine(e)
                [] e.op = "list" -> CheckList(e)
                [] e.op = "psfs" -> CheckPsfs(e)
                [] OTHER -> {"F06.unknown_record", "F07.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
