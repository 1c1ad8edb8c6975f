--------------------------- MODULE Trace_Session ---------------------------
(***************************************************************************)
(* Recorded sessions, judged against Session.  begin opens a session, and  *)
(* alone a process in which one of its runs is repeated by itself (what is *)
(* known of the runs stays, everything else starts anew).  Each record     *)
(* carries what the caller holds after the step (st).                      *)
(***************************************************************************)
EXTENDS Session, TraceLib
VARIABLES l, s

Start(e, id, memo) == [id |-> id, st |-> e.st, insts |-> << >>, memo |-> memo, active |-> {}, runs |-> << >>]
None == [id |-> ""]

\* what nobody may change
\* (e.may: inputs which a run may change, as it is documented to work in place)
World(e, except) ==
  Clause(s.id \o ".inputs_unchanged", KeptBut(s.st.inputs, e.st.inputs, RangeOf(e.may)))
  \cup Clause(s.id \o ".process_wide_generator_untouched", e.st.glob = s.st.glob)
  \cup Clause(s.id \o ".other_generators_untouched", KeptBut(s.st.gens, e.st.gens, except))
  \cup Clause(s.id \o ".results_kept", Kept(s.st.held, e.st.held))

GensOf(insts) == {s.insts[i].gen : i \in insts}

CheckGo(e) ==
  LET i == s.insts[e.inst]
      k == KeyOf(i.give, i.starts)
      v == s.memo[k]
  IN World(e, GensOf(s.active))
     \cup Clause(s.id \o ".completes", e.raised = 0)
     \cup (IF k \notin DOMAIN s.memo THEN {}
           ELSE Clause(s.id \o ".same_given_same_outcome", v.out = e.out)
                \cup Clause(s.id \o ".same_given_same_catalogue", v.dig = e.dig)
                \cup Clause(s.id \o ".same_given_same_draws", v.end = e.end))
CheckRead(e) ==
  LET i == s.insts[e.inst]
  IN World(e, {})
     \cup Clause(s.id \o ".read_is_last_result",
                 IF i.last = << >> THEN e.out \notin {"none", "dict"}
                 ELSE e.out = i.last.out /\ e.dig = i.last.dig)

Failing(e) ==
  CASE e.op \in {"begin", "alone", "enter"} -> {}
    [] e.op = "new" -> World(e, {e.gen})
    [] e.op = "go" -> CheckGo(e)
    [] e.op = "read" -> CheckRead(e)

Done(e) == [out |-> e.out, dig |-> e.dig]
After(e) ==
  CASE e.op = "begin" -> Start(e, e.prop, << >>)
    [] e.op = "alone" -> Start(e, s.id, s.memo)
    [] e.op = "new" ->
         [s EXCEPT !.insts = (e.inst :> [give |-> e.give, gen |-> e.gen, starts |-> << >>, last |-> << >>]) @@ @,
                   !.st = e.st]
    [] e.op = "enter" ->
         [s EXCEPT !.insts[e.inst].starts = Append(@, e.start), !.active = @ \cup {e.inst}]
    [] e.op = "go" ->
         [s EXCEPT !.st = e.st, !.active = @ \ {e.inst},
                   !.insts[e.inst].last = IF e.out \in {"none", "dict"} THEN Done(e) ELSE @,
                   !.memo = Remember(@, KeyOf(s.insts[e.inst].give, s.insts[e.inst].starts),
                                     [out |-> e.out, dig |-> e.dig, end |-> e.end])]
    [] e.op = "read" -> [s EXCEPT !.st = e.st]

Init == l = 1 /\ s = None
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ s' = After(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s>>
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
