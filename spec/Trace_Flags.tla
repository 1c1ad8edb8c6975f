-------------------------- MODULE Trace_Flags --------------------------
EXTENDS Flags, TraceLib
VARIABLE l

(* consts: [name, bit (position, or -1 when not one bit below 31), has (keywords *)
(* its description contains), back (the bit its description maps back to)]       *)
CheckTable(e) ==
  LET C == e.consts
  IN Clause("P01.all_present", {C[i].name : i \in DOMAIN C} = Names)
     \cup Clause("P01.single_bits_that_fit", \A i \in DOMAIN C : C[i].bit >= 0 /\ C[i].bit <= 30)
     \cup Clause("P01.distinct", \A i, j \in DOMAIN C : i # j => C[i].bit # C[j].bit)
     \cup Clause("P01.no_collision_with_library", \A i \in DOMAIN C : C[i].bit \notin RangeOf(e.lib))
     \cup Clause("P01.descriptions_match", \A i \in DOMAIN C :
            Keyword[C[i].name] \in RangeOf(C[i].has) /\ C[i].back = C[i].bit)
     \cup Clause("P01.descriptions_differ", \A i, j \in DOMAIN e.single : i # j => e.single[i] # e.single[j])
     \cup Clause("P01.library_table_unchanged", e.libsame = 1)
CheckStr(e) ==
  IF e.outcome # "ok" THEN {"P01.describes"}
  ELSE Clause("P01.names_exactly_the_set_bits", Described(e.parts, e.single, e.v))

Failing(e) == CASE e.op = "table" -> CheckTable(e)
                [] e.op = "str" -> CheckStr(e)
                [] OTHER -> {"P01.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
