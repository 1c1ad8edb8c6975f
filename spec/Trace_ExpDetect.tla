-------------------------- MODULE Trace_ExpDetect --------------------------
(* Recorded runs of the detection and deblending task. *)
EXTENDS ExpDetect, TraceLib
VARIABLE l
S == 1000
Same(g, h) == Len(g) = Len(h) /\ \A i \in DOMAIN g : Len(g[i]) = Len(h[i])
AllCells(g, ok(_, _)) == \A i \in DOMAIN g : \A j \in DOMAIN g[i] : ok(i, j)
Close(x, qs) == \E q \in qs : Near(x, q, S, 3)

Steps(e) == [i \in DOMAIN e.seen.ev |-> e.seen.ev[i].t]
Of(e, t) == SelectSeq(e.seen.ev, LAMBDA v : v.t = t)
InputOk(e) ==
  LET es == e.exps x == e.seen.input IN
  IF Len(es) = 1
  THEN x.im = [i \in DOMAIN es[1].im |-> [j \in DOMAIN es[1].im[i] |-> S * es[1].im[i][j]]]
       /\ Same(x.var, es[1].var)
       /\ AllCells(x.var, LAMBDA i, j : x.var[i][j] = (LET v == es[1].var[i][j] IN IF IsNum(v) THEN (S \div VS) * v ELSE v))
       /\ x.mask = es[1].mask
  ELSE /\ Same(x.im, es[1].im) /\ Same(x.var, es[1].var)
       /\ AllCells(x.im, LAMBDA i, j : Close(x.im[i][j], CoaddAt(es, i, j)))
       /\ AllCells(x.var, LAMBDA i, j :
            LET v == InvVarSum(es, i, j)
            IN IF v[1] = 0 THEN x.var[i][j] = INF ELSE Near(x.var[i][j], QInv(v), S, 2))
       /\ x.mask = Grid(H(es[1]), W(es[1]), LAMBDA i, j : MaskOr(es, i, j))

Check(e) ==
  Clause("L14.given_settings_unchanged", e.same_config = 1)
  \cup Clause("L14.measurement_settings", e.measuring = Measuring)
  \cup Clause("L14.deblender_settings", e.deblending = Over(Deblending(e.deb), e.over.deblend))
  \cup Clause("L14.noise_generator", e.noise = 1)
  \cup (IF e.outcome # "ok" THEN {"L14.completes"}
        ELSE Clause("L14.steps", Steps(e) = Plan(e.exps, e.deb, e.found))
        \cup (IF Of(e, "detect") = << >> THEN {}
              ELSE Clause("L14.detection_settings", e.seen.cfg = DetectionWith(e.thr, e.over.detect))
              \cup Clause("L14.detected_on", InputOk(e))
              \cup Clause("L14.detected_in_single_precision", e.seen.cls = "ExposureF")
              \cup Clause("L14.one_schema", e.seen.schema = 1))
        \cup Clause("L14.deconvolved_bands", \A i \in DOMAIN Of(e, "deconvolve") :
               LET v == Of(e, "deconvolve")[i]
               IN v.n = i /\ i <= Len(e.names) /\ v.band = e.names[i] /\ v.ids = Detected(e.found))
        \cup Clause("L14.deblended_what", \A i \in DOMAIN Of(e, "deblend") :
               LET v == Of(e, "deblend")[i]
               IN /\ v.which = e.deb /\ v.on = 1 /\ v.ids = Detected(e.found)
                  /\ e.deb = "scarlet" =>
                     /\ v.decbands = e.names
                     /\ v.dec = [n \in DOMAIN e.exps |-> [r \in DOMAIN e.exps[n].im |->
                          [c \in DOMAIN e.exps[n].im[r] |->
                             LET add == IF e.found >= 0 THEN 1000 * n ELSE 0
                             IN S * (e.exps[n].im[r][c] + add)]]])
        \cup Clause("L14.footprints_of_deblended", \A i \in DOMAIN Of(e, "footprints") :
               Of(e, "footprints")[i].on = 1 /\ Of(e, "footprints")[i].keep = 1)
        \cup Clause("L14.sources", e.ids = (IF ~Detectable(e.exps) \/ e.found < 0 THEN << >>
                                            ELSE Deblended(e.found, e.kids)))
        \cup Clause("L14.detection_exposure", e.det = (IF Detectable(e.exps) THEN "detected" ELSE "none"))
        \cup Clause("L14.models", e.model =
               (IF Detectable(e.exps) /\ e.found >= 0 /\ e.deb = "scarlet" THEN "deblended" ELSE "none")))
  (* detection marks what it detects in the exposure it is given *)
  \cup Clause("L14.exposures_unchanged", (Len(e.exps) > 1 \/ e.dbl = 1) => e.same = 1)

Failing(e) == CASE e.op = "detdeb" -> Check(e)
                [] e.op = "detmake" -> {"L14.completes"}
Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
