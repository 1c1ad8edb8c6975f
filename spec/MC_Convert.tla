----------------------------- MODULE MC_Convert -----------------------------
(***************************************************************************)
(* Every chain of conversions between exposures and observations, from     *)
(* every small image: pixels survive, weights never grow back, a mask      *)
(* survives exactly as long as it is read from the plane it was put in.    *)
(***************************************************************************)
EXTENDS Exposure, Json
CONSTANTS VC, MC, MAXSTEPS, NP
VARIABLES x0, cur, steps
vars == << x0, cur, steps >>
VCq == {0, 4, 2, INF, NAN}
VCt == {0, 4, 2, 8, INF, NAN, -4}
Start(v, m) == [form |-> "exp", im |-> << [j \in 1..NP |-> 10 * j - 15] >>, var |-> << v >>, mask |-> << m >>]
Init == x0 = << >> /\ cur = << >> /\ steps = << >>
Pick == /\ x0 = << >>
        /\ \E v \in [1..NP -> VC] : \E m \in [1..NP -> MC] :
             /\ \E j \in 1..NP : IsNum(v[j]) /\ v[j] > 0
             /\ x0' = Start(v, m) /\ cur' = Start(v, m)
        /\ UNCHANGED steps
Step == /\ x0 # << >> /\ Len(steps) < MAXSTEPS
        /\ \E w \in {"bmask", "ormask"} :
             /\ cur' = Convert(cur, w) /\ steps' = Append(steps, w)
             /\ (Len(steps) + 1 = MAXSTEPS =>
                   PrintT("SCN " \o ToJson([kind |-> "chain", var |-> x0.var, mask |-> x0.mask, steps |-> steps'])))
        /\ UNCHANGED x0
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars

Going == x0 # << >>
PixelsKept == Going => cur.im = x0.im
(* the usable pixels are those of the start, with its inverse variance *)
WeightsKept == Going =>
  \A j \in 1..NP :
    LET q == InvVar(x0.var[1][j])
    IN IF cur.form = "obs" THEN cur.w[1][j] = q
       ELSE steps # << >> => (cur.var[1][j] = IF q[1] > 0 THEN x0.var[1][j] ELSE INF)
(* pairs of steps (into an observation, out of it) which use the same plane *)
Faithful == \A k \in 1..(Len(steps) \div 2) : steps[2 * k - 1] = steps[2 * k]
MaskKept == Going =>
  IF cur.form = "exp" THEN cur.mask = (IF Faithful THEN x0.mask ELSE ZeroGrid(x0.mask))
  ELSE LET m == IF Faithful THEN x0.mask ELSE ZeroGrid(x0.mask)
           last == steps[Len(steps)]
       IN /\ (IF last = "bmask" THEN cur.bm ELSE cur.om) = m
          /\ (IF last = "bmask" THEN cur.om ELSE cur.bm) = ZeroGrid(x0.mask)
ChainIsFold == Going => cur = Chain(x0, steps)
=============================================================================
