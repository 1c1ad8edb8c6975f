-------------------------- MODULE Trace_Fitters --------------------------
(* Recorded runs with configured fitters: the calls that reached the
   measurement library and the columns that came out. *)
EXTENDS Fitters, TraceLib
VARIABLE l

RECURSIVE RowsF(_, _, _)
RowsF(c, t, i) ==
  IF i > Len(Combs(c)) THEN << >>
  ELSE LET m == Detected(c, t, DetBands(c, i))
       IN [n \in DOMAIN m |-> <<i, m[n]>>] \o RowsF(c, t, i + 1)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) : Count(a, x) = Count(b, x)

Bad(e) == \/ e.both = 1 \/ \E i \in DOMAIN e.fitters : ~KnownModel(e.fitters[i].model)
Expected(e) == IF e.both = 1 THEN "raise:RuntimeError" ELSE "raise:ValueError"

ColumnsOf(f) == Kind(f)
CheckValues(c, f, n, e) ==     \* fitter number n of the run
  UNION {LET t == c.types[ti]
             rows == e.rows[t]
             exp == RowsF(c, t, 1)
         IN IF Len(rows) # Len(exp) THEN {"M06.rows"}
            ELSE UNION {
              LET o == c.objs[t][exp[r][2]]
                  comb == Combs(c)[exp[r][1]]
                  v == rows[r].fits[n]
              IN Clause("M06.columns", v.kind = Kind(f))
                 \cup (IF f.model \in Wavg /\ Usable(c, f, o, comb)
                       THEN Clause("M06.size_not_regularised", Near(v.T, TQ(c, f, o, comb), 1000, 5))
                            \cup Clause("M06.regularised_shape",
                                   Abs(v.g1 - G14(c, f, o, comb)) <= 3)
                       ELSE {})
              : r \in DOMAIN rows}
         : ti \in DOMAIN c.types}

Check(e) ==
  IF Bad(e) THEN Clause("M06.rejected", e.outcome = Expected(e))
  ELSE Clause("M06.completes", e.outcome = "ok")
       \cup (IF e.outcome # "ok" THEN {} ELSE
         Clause("M06.exactly_configured_measurements",
                e.kinds = << >> \/ e.kinds = [i \in DOMAIN e.fitters |-> Kind(e.fitters[i])])
         \cup Clause("M06.settings_reach_measurement",
                SameBag(e.calls, AllCalls(e.cfg, e.fitters, 1, 1, 1)))
         \cup (IF e.kinds = [i \in DOMAIN e.fitters |-> Kind(e.fitters[i])]
               THEN UNION {CheckValues(e.cfg, e.fitters[n], n, e) : n \in DOMAIN e.fitters}
               ELSE {}))

Failing(e) == CASE e.op = "fitrun" -> Check(e)
                [] OTHER -> {"M06.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
