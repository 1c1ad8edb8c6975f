--------------------------- MODULE Trace_Subtract ---------------------------
(* Recorded histories of model subtractors and noise replacers. *)
EXTENDS Subtract, TraceLib
VARIABLE l

(* ---------------------------------------------------------------- L05 *)
(* e.exps: the bands' images in the order of the exposure, all with frame e.fr;
   e.models[s][b], e.ker[b] for child s and band b *)
CheckSubtract(e) ==
  IF e.built # "ok" THEN {"L05.completes"}
  ELSE
  LET fr == e.fr
      nb == Len(e.exps)
      ids == RangeOf(e.ids)
      Pos(s) == CHOOSE i \in DOMAIN e.ids : e.ids[i] = s
      mods == TLCEval([b \in 1..nb |-> [s \in ids |-> ModelGrid(e.models[Pos(s)][b], e.ker[b], e.obs, fr)]])
      bare == TLCEval([b \in 1..nb |-> [i \in 1..fr[4] |-> [j \in 1..fr[3] |->
                 Shown(e.exps[b][i][j], [s \in ids |-> mods[b][s][i][j]], ids, << >>)]]])
      Show(b, st) == IF st = << >> THEN bare[b]
                     ELSE [i \in 1..fr[4] |-> [j \in 1..fr[3] |->
                             bare[b][i][j] + SumSeq([k \in DOMAIN st |-> mods[b][st[k]][i][j]])]]
      evs == e.events
      Crop(g, bx) == [i \in 1..bx[4] |-> [j \in 1..bx[3] |-> g[bx[2] - fr[2] + i][bx[1] - fr[1] + j]]]
      Stack(n) == StackAt(ids, evs, n)
      ImageOk(n) == \A b \in 1..nb : evs[n].im[b] = Show(b, Stack(n))
      EventOk(n) ==
        LET v == evs[n] st == Stack(n) IN
        Clause("L05.original_kept", v.orig_same = 1)
        \cup (CASE v.t = "enter" /\ Known(ids, v.id) ->
                   Clause("L05.added_back_within_context", v.outcome = "ok" /\ ImageOk(n))
                [] v.t = "enter" ->
                   Clause("L05.strangers_rejected", v.outcome = "raise:ValueError" /\ ImageOk(n))
                [] v.t = "leave" ->
                   Clause("L05.restored_when_context_ends", ImageOk(n))
                   \cup Clause("L05.error_passes_through", v.outcome = IF v.how = "error" THEN "raise:KeyboardError" ELSE "ok")
                [] v.t = "start" -> Clause("L05.everything_subtracted", ImageOk(n))
                   \cup Clause("L05.children_listed_once",
                          /\ Len(v.listed) = Cardinality(ids) /\ RangeOf(v.listed) = ids
                          /\ v.records = v.listed)
                [] v.t = "stamp" ->
                   IF ~Known(ids, v.id) THEN Clause("L05.strangers_rejected", v.outcome = "raise:ValueError" /\ ImageOk(n))
                   ELSE IF v.outcome # "ok" THEN {"L05.completes"}
                   ELSE Clause("L05.stamps_show_the_state",
                          /\ v.bands = e.names
                          /\ \A b \in 1..nb : v.planes[b] =
                               Crop(IF v.kind = "original" THEN e.exps[b] ELSE Show(b, st), v.box))
                     \cup Clause("L05.looking_changes_nothing", ImageOk(n))
                [] v.t = "model" ->
                   IF ~Known(ids, v.id) THEN Clause("L05.strangers_rejected", v.outcome = "raise:ValueError" /\ ImageOk(n))
                   ELSE IF v.refused # "" THEN
                     Clause("L05.model_stamp_as_other_stamps", v.outcome = v.refused /\ ImageOk(n))
                   ELSE IF v.outcome # "ok" THEN {"L05.completes"}
                   ELSE Clause("L05.model_stamp_as_other_stamps", v.asked # << >> => v.box = v.asked)
                     \cup Clause("L05.model_of_one_source",
                          /\ v.bands = e.names
                          /\ \A b \in 1..nb :
                               /\ \A i \in 1..v.box[4] : \A j \in 1..v.box[3] :
                                  LET x == v.planes[b][i][j]
                                      m == mods[b][v.id][v.box[2] - fr[2] + i][v.box[1] - fr[1] + j]
                                  IN x = m \/ (x = NAN /\ m = 0)
                               \* and it holds all of the model
                               /\ v.asked = << >> => \A i \in 1..fr[4] : \A j \in 1..fr[3] : mods[b][v.id][i][j] # 0 =>
                                    BoxHas(v.box, fr[1] + j - 1, fr[2] + i - 1))
                     \cup Clause("L05.looking_changes_nothing", ImageOk(n))
                [] v.t = "full" ->
                   IF v.outcome # "ok" THEN {"L05.completes"}
                   ELSE Clause("L05.full_model", \A b \in 1..nb : \A i \in 1..fr[4] : \A j \in 1..fr[3] :
                          v.planes[b][i][j] = SumIds(ids, [s \in ids |-> mods[b][s][i][j]]))
                     \cup Clause("L05.looking_changes_nothing", ImageOk(n))
                [] OTHER -> {"L05.unknown_record"})
  IN UNION {EventOk(n) : n \in DOMAIN evs}

(* ---------------------------------------------------------------- L06 *)
(* e.fps[k]: pixels <<x, y>> of source e.ids[k]; e.orig[b]; e.fill[b]: what the
   image held right after the replacer was made *)
CheckReplace(e) ==
  IF e.built # "ok" THEN {"L06.completes"}
  ELSE
  LET fr == e.fr nb == Len(e.orig) evs == e.events
      ids == RangeOf(e.ids)
      Fp(s) == RangeOf(e.fps[CHOOSE i \in DOMAIN e.ids : e.ids[i] = s])
      all == UNION {Fp(s) : s \in ids}
      Pix(P(_, _, _)) == \A i \in 1..fr[4] : \A j \in 1..fr[3] : P(i, j, << fr[1] + j - 1, fr[2] + i - 1 >>)
      Cov(st) == UNION {Fp(s) : s \in RangeOf(st)}
      ImageOk(n) == LET st == StackAt(ids, evs, n) c == Cov(st) IN
        \A b \in 1..nb : Pix(LAMBDA i, j, p :
          evs[n].im[b][i][j] = IF p \in all /\ p \notin c THEN e.fill[b][i][j] ELSE e.orig[b][i][j])
      EventOk(n) == LET v == evs[n] IN
        CASE v.t = "enter" -> Clause("L06.inserted_within_context", v.outcome = "ok" /\ ImageOk(n))
          [] v.t = "leave" -> Clause("L06.noise_again_after_context", ImageOk(n))
               \cup Clause("L06.error_passes_through", v.outcome = IF v.how = "error" THEN "raise:KeyboardError" ELSE "ok")
          [] v.t = "end" -> Clause("L06.restored_exactly", v.exact = 1 /\ v.im = e.orig)
               \cup Clause("L06.error_passes_through", v.outcome = IF v.how = "error" THEN "raise:KeyboardError" ELSE "ok")
          [] v.t = "look" -> Clause("L06.noise_again_after_context", ImageOk(n))
          [] OTHER -> {"L06.unknown_record"}
  IN UNION {EventOk(n) : n \in DOMAIN evs}
     \cup Clause("L06.only_sources_replaced", \A b \in 1..nb : Pix(LAMBDA i, j, p :
            p \notin all => e.fill[b][i][j] = e.orig[b][i][j]))
     \cup Clause("L06.given_noise_used", \A b \in DOMAIN e.given : Pix(LAMBDA i, j, p :
            p \in all => e.fill[b][i][j] = e.given[b][i][j]))
     \* noise of the right size: well within 8 standard deviations of zero, not all tiny
     \cup Clause("L06.noise_level", \A b \in DOMAIN e.sig : LET q == e.sig[b] IN
            /\ Pix(LAMBDA i, j, p : p \in all => Abs(e.fill[b][i][j]) <= 8 * q)
            /\ Cardinality(all) >= 6 => ~Pix(LAMBDA i, j, p : p \in all => Abs(e.fill[b][i][j]) * 50 < q))

(* the noise image made for one exposure; sizes 1000 times *)
FiniteVars(e) == SelectSeq([i \in DOMAIN e.var |-> IF IsNum(e.im[i]) THEN e.var[i] ELSE NAN], LAMBDA v : IsNum(v))
Corrected(e) ==
  IF e.poisson = 0 THEN FiniteVars(e)
  ELSE LET k == SelectSeq([i \in DOMAIN e.var |-> i], LAMBDA i : IsNum(e.im[i]) /\ IsNum(e.var[i]))
       IN [i \in DOMAIN k |-> e.var[k[i]] - e.im[k[i]] \div e.gain]
CheckNoise(e) ==
  IF e.outcome # "ok" THEN {"L06.completes"}
  ELSE LET m == Median2(Corrected(e)) IN        \* twice the variance
    Clause("L06.noise_image_level", e.n < 200 \/ (e.ms2 * 100 >= 70 * 1000 * m /\ e.ms2 * 100 <= 135 * 1000 * m))
    \cup Clause("L06.noise_image_variance", \A i \in DOMAIN e.outvar : Abs(2 * e.outvar[i] - 1000 * m) <= 2)
    \cup Clause("L06.noise_image_frame", e.fr = e.outfr)
    \cup Clause("L06.noise_image_separate", e.same = 1)

Failing(e) == CASE e.op = "subtract" -> CheckSubtract(e)
                [] e.op = "replace" -> CheckReplace(e)
                [] e.op = "noiseimage" -> CheckNoise(e)
                [] OTHER -> {"L05.unknown_record", "L06.unknown_record"}
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
