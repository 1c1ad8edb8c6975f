-------------------------- MODULE Trace_Config --------------------------
EXTENDS Config, TraceLib
VARIABLE l
Ent(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in DOMAIN s}

CheckStep(e) ==
  LET B == [i \in DOMAIN e.before |-> Ent(e.before[i])]
      A == [i \in DOMAIN e.after |-> Ent(e.after[i])]
      me == IF e.i = 0 THEN {} ELSE B[e.i]         \* 0: requested without a configuration
  IN Clause("L01.defaults_unchanged", Ent(e.defaults) = Default /\ e.module_same = 1)
     \cup (IF e.act = "get"
           THEN IF Bad(me)
                THEN Clause("L01.unknown_keys_rejected", e.outcome = "raise:ValueError")
                     \cup Clause("L01.others_unchanged", A = B)
                ELSE IF e.outcome # "ok" \/ Len(A) # Len(B) + 1 THEN {"L01.returns_a_configuration"}
                ELSE Clause("L01.defaults_with_entries_on_top", A[Len(A)] = Full(me))
                     \cup Clause("L01.others_unchanged", \A i \in DOMAIN B : A[i] = B[i])
           ELSE Clause("L01.configurations_are_isolated",
                  /\ Len(A) = Len(B)
                  /\ \A i \in DOMAIN B : i # e.i => A[i] = B[i]
                  /\ A[e.i] = IF e.act = "set" THEN Put(B[e.i], <<e.e[1], e.e[2], e.e[3]>>)
                              ELSE Drop(B[e.i], e.e[1], e.e[2])))

Failing(e) == CASE e.op = "config" -> CheckStep(e)
                [] e.op = "missing" -> Clause("L01.missing_keys_rejected", e.outcome = "raise:ValueError")
                [] OTHER -> {"L01.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
