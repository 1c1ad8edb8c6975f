----------------------------- MODULE MC_SkySub -----------------------------
(***************************************************************************)
(* Runs over bands of W pixels, step by step, with a fault at any step.    *)
(***************************************************************************)
EXTENDS SkySub, Json
CONSTANTS W, VALUES, MASKS, MAXN, MAXB
BAD == 1
DET == 2
IGN == 3
THR == 1
VARIABLES niter, faults, orig, cur, band, phase, runs, total
vars == <<niter, faults, orig, cur, band, phase, runs, total>>

Bands == {[im |-> <<a>>, mask |-> <<m>>] : a \in [1..W -> VALUES], m \in [1..W -> MASKS]}
Steps == {<<i, w>> : i \in 1..MAXN, w \in {"back", "detect"}}
Faults == {<< >>} \cup {<<s>> : s \in Steps}
Init == /\ niter \in 1..MAXN
        /\ orig \in UNION {[1..n -> Bands] : n \in 1..MAXB}
        /\ faults \in [DOMAIN orig -> Faults]
        /\ cur = orig /\ band = 1 /\ phase = "back"
        /\ runs = [k \in DOMAIN orig |-> Start(orig[k])] /\ total = [k \in DOMAIN orig |-> << >>]
R == runs[band]
NextBand(stopped) == IF band = Len(orig) THEN phase' = "end" /\ UNCHANGED band
                     ELSE phase' = "back" /\ band' = band + 1
Back == /\ phase = "back"
        /\ LET noback == Fails(faults[band], R.i + 1, "back") \/ Usable(cur[band], IGN) = {} IN
           IF noback
           THEN /\ NextBand(1) /\ runs' = [runs EXCEPT ![band].stop = 1, ![band].backs = @ + 1]
                /\ UNCHANGED cur
           ELSE LET v == Level(cur[band], IGN) IN
                /\ cur' = [cur EXCEPT ![band] = Lowered(@, v)]
                /\ runs' = [runs EXCEPT ![band].last = v, ![band].backs = @ + 1]
                /\ phase' = "detect" /\ UNCHANGED band
        /\ UNCHANGED <<niter, faults, orig, total>>
Det == /\ phase = "detect"
       /\ IF Fails(faults[band], R.i + 1, "detect")
          THEN /\ NextBand(1) /\ runs' = [runs EXCEPT ![band].stop = 1, ![band].detects = @ + 1]
               /\ UNCHANGED <<cur, total>>
          ELSE /\ cur' = [cur EXCEPT ![band] = Detected(@, THR, DET)]
               /\ runs' = [runs EXCEPT ![band].i = @ + 1, ![band].sum = @ + R.last, ![band].detects = @ + 1]
               /\ IF R.i + 1 = niter
                  THEN NextBand(0) /\ total' = [total EXCEPT ![band] = << R.sum + R.last >>]
                  ELSE phase' = "back" /\ UNCHANGED <<band, total>>
       /\ UNCHANGED <<niter, faults, orig>>
Emit == /\ phase = "end" /\ phase' = "stop"
        /\ PrintT("SCN " \o ToJson([kind |-> "skysub", niter |-> niter, bands |-> orig, faults |-> faults]))
        /\ UNCHANGED <<niter, faults, orig, cur, band, runs, total>>
Next == Back \/ Det \/ Emit
Spec == Init /\ [][Next]_vars

Ended(k) == phase \in {"end", "stop"} \/ k < band
(* the machine does what the definition says, to every band by itself *)
AsDefined == \A k \in DOMAIN orig : Ended(k) =>
  LET s == RunBand(orig[k], niter, faults[k], IGN, THR, DET)
  IN cur[k] = s.b /\ runs[k].stop = s.stop /\ runs[k].sum = s.sum /\ runs[k].backs = s.backs /\ runs[k].detects = s.detects
UntouchedBefore == \A k \in DOMAIN orig : k > band => cur[k] = orig[k]
(* a completed run is the input minus what it says it removed *)
Accounts == \A k \in DOMAIN orig : total[k] # << >> =>
  \A p \in PixSet(orig[k]) : cur[k].im[p[1]][p[2]] = orig[k].im[p[1]][p[2]] - total[k][1]
TotalOnlyIfComplete == \A k \in DOMAIN orig : Ended(k) => ((total[k] # << >>) <=> runs[k].stop = 0)
LastTakenOut == \A k \in DOMAIN orig : total[k] # << >> =>
  \E p \in PixSet(orig[k]) : cur[k].im[p[1]][p[2]] <= 0
=============================================================================
