----------------------------- MODULE ExpDetect -----------------------------
(***************************************************************************)
(* Detection and deblending of exposures (property L14).                   *)
(*                                                                         *)
(* A task is made once, with a threshold and overrides, and then runs on   *)
(* sets of exposures.  Per run it detects once, on the coadd of the bands  *)
(* (the exposure itself if there is one band); if the detection gives a    *)
(* catalogue, it deblends once, with the configured deblender; and it      *)
(* returns what the deblender left.  Scarlet needs deconvolved exposures   *)
(* of all the bands before, and footprints of the deblended sources after. *)
(*                                                                         *)
(* Setting values are strings.                                             *)
(***************************************************************************)
EXTENDS Exposure

(* what every task sets, as the library promises no stable defaults *)
Detection ==
  [minPixels |-> "1", isotropicGrow |-> "True", combinedGrow |-> "True", nSigmaToGrow |-> "2.4",
   returnOriginalFootprints |-> "False", includeThresholdMultiplier |-> "1.0",
   thresholdPolarity |-> "positive", adjustBackground |-> "0.0", doApplyFlatBackgroundRatio |-> "False",
   nPeaksMaxSimple |-> "1", nSigmaForKernel |-> "7.0", excludeMaskPlanes |-> "BRIGHT,EDGE,NO_DATA",
   thresholdType |-> "stdev", reEstimateBackground |-> "False", thresholdValue |-> "5.0",
   statsMask |-> "BAD,BRIGHT,DETECTED,DETECTED_NEGATIVE,EDGE,NO_DATA"]
Deblending(deb) ==
  IF deb = "sdss" THEN [maxFootprintArea |-> "0"] ELSE [maxFootprintArea |-> "0", processSingles |-> "True"]
Measuring ==
  [plugins |-> "base_PsfFlux,base_SdssCentroid,base_SkyCoord", binmax |-> "1", apFlux |-> "None",
   gaussianFlux |-> "None", calibFlux |-> "None", modelFlux |-> "None", shape |-> "None"]
Over(d, o) == [k \in DOMAIN d |-> IF k \in DOMAIN o THEN o[k] ELSE d[k]]
(* a threshold given to the maker goes on top of the settings *)
DetectionWith(thr, o) ==
  [k \in DOMAIN Detection |-> IF k = "thresholdValue" /\ thr # "" THEN thr ELSE Over(Detection, o)[k]]

(* is there anything to detect on? with one band no weight is needed *)
Detectable(es) == Len(es) = 1 \/ WTot(es)[1] # 0

(* found: number of sources detected, or -1 if detection gives nothing *)
Plan(es, deb, found) ==
  IF ~Detectable(es) THEN << >>
  ELSE << "detect" >> \o
    (IF found < 0 THEN << >>
     ELSE IF deb = "sdss" THEN << "deblend" >>
     ELSE [n \in DOMAIN es |-> "deconvolve"] \o << "deblend", "footprints" >>)

(* source ids: 1..found detected; the deblender adds a child 100 + i for every
   i of kids (sdss: to the catalogue it is given; scarlet: in a new one) *)
Detected(found) == [i \in 1..found |-> i]
Deblended(found, kids) == Detected(found) \o [i \in 1..Len(kids) |-> 100 + kids[i]]
=============================================================================
