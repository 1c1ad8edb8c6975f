--------------------------- MODULE MC_ExpDetect ---------------------------
(* A task which is made and then run NRUN times: every choice of deblender,
   of settings given, of exposures (number of bands, which have weight, pixel
   type) and of what is detected.  The machine takes the steps one by one;
   the plan of a run is what it must have done in the end. *)
EXTENDS ExpDetect, Json
CONSTANTS NRUN, NBMAX, FMAX, EMIT
VARIABLES task, run, ev, phase, hist

vars == << task, run, ev, phase, hist >>
OVERS == {"none", "detect", "deblend", "both"}
THRS == {"", "3.0", "12.5"}
None == [deb |-> "", over |-> "", thr |-> ""]
NoRun == [var |-> << >>, dbl |-> 0, found |-> 0, kids |-> << >>]
Init == task = None /\ run = NoRun /\ ev = << >> /\ phase = "make" /\ hist = << >>

Make == /\ phase = "make"
        /\ \E d \in {"sdss", "scarlet"}, o \in OVERS, t \in THRS :
             task' = [deb |-> d, over |-> o, thr |-> t]
        /\ phase' = "idle" /\ UNCHANGED << run, ev, hist >>

(* one pixel per band stands for an exposure *)
Exps(r) == [n \in DOMAIN r.var |-> [x |-> 0, y |-> 0, im |-> << <<n>> >>, var |-> << <<r.var[n]>> >>,
                                    mask |-> << <<0>> >>, m |-> <<4, 0, 0, 4>>]]
Start == /\ phase = "idle" /\ Len(hist) < NRUN
         /\ \E nb \in 1..NBMAX : \E v \in [1..nb -> {4, 8, 0, INF}], d \in (IF nb = 1 THEN {0, 1} ELSE {0}),
               f \in -1..FMAX, k \in {<< >>, <<1>>, <<2, 1>>} :
              /\ \A i \in DOMAIN k : k[i] <= f
              /\ run' = [var |-> v, dbl |-> d, found |-> f, kids |-> k]
         /\ phase' = "start" /\ ev' = << >> /\ UNCHANGED << task, hist >>

Did(what) == ev' = Append(ev, what)
Detect == /\ phase = "start" /\ Detectable(Exps(run)) /\ Did("detect")
          /\ phase' = (IF run.found < 0 THEN "done" ELSE IF task.deb = "sdss" THEN "deblend" ELSE "deconvolve")
          /\ UNCHANGED << task, run, hist >>
Nothing == /\ phase = "start" /\ ~Detectable(Exps(run)) /\ phase' = "done" /\ UNCHANGED << task, run, ev, hist >>
Count(what) == Len(SelectSeq(ev, LAMBDA x : x = what))
Deconvolve == /\ phase = "deconvolve" /\ Did("deconvolve")
              /\ phase' = (IF Count("deconvolve") + 1 = Len(run.var) THEN "deblend" ELSE "deconvolve")
              /\ UNCHANGED << task, run, hist >>
Deblend == /\ phase = "deblend" /\ Did("deblend")
           /\ phase' = (IF task.deb = "sdss" THEN "done" ELSE "footprints") /\ UNCHANGED << task, run, hist >>
Footprints == /\ phase = "footprints" /\ Did("footprints") /\ phase' = "done" /\ UNCHANGED << task, run, hist >>
Return == /\ phase = "done"
          /\ hist' = Append(hist, run)
          /\ EMIT => PrintT("SCN " \o ToJson([kind |-> "expdetect", task |-> task, runs |-> hist']))
          /\ phase' = "idle" /\ run' = NoRun /\ ev' = << >> /\ UNCHANGED task
Next == Make \/ Start \/ Detect \/ Nothing \/ Deconvolve \/ Deblend \/ Footprints \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Detect \/ Nothing \/ Deconvolve \/ Deblend \/ Footprints \/ Return)

AsPlanned == phase = "done" => ev = Plan(Exps(run), task.deb, run.found)
OnceEach == Count("detect") <= 1 /\ Count("deblend") <= 1 /\ Count("footprints") <= 1
            /\ Count("deconvolve") <= Len(run.var)
DetectFirst == ev # << >> => ev[1] = "detect"
DeblendWhatWasFound == Count("deblend") = 1 => run.found >= 0
ScarletReady == (Count("deblend") = 1 /\ task.deb = "scarlet") => Count("deconvolve") = Len(run.var)
(* the settings a task runs with: given ones win, all others are ours *)
Given == [minPixels |-> "4", thresholdPolarity |-> "negative"]
SettingsWin == LET s == DetectionWith(task.thr, Given) IN
  /\ s.minPixels = "4" /\ s.thresholdPolarity = "negative"
  /\ s.thresholdValue = (IF task.thr = "" THEN "5.0" ELSE task.thr)
  /\ \A k \in DOMAIN Detection \ {"minPixels", "thresholdPolarity", "thresholdValue"} : s[k] = Detection[k]
DetectedKept == \A i \in 1..(IF run.found < 0 THEN 0 ELSE run.found) :
                  i \in RangeOf(Deblended(IF run.found < 0 THEN 0 ELSE run.found, run.kids))
EveryRunEnds == (phase = "start") ~> (phase = "idle")
=============================================================================
