----------------------------- MODULE MC_Masking -----------------------------
(***************************************************************************)
(* Histories of corrections on an N by N image, every operation drawn from *)
(* OPS, and the kernel on a grid of scales.                                *)
(***************************************************************************)
EXTENDS Masking, Json
CONSTANTS N, MAXOPS, HS, RS, PS
PSq == {-3, 5}
PSt == {-3, 5, 14}
VARIABLES hist, bits, w, mf, pc
vars == <<hist, bits, w, mf, pc>>

P == Everything(N, N)
Hole1 == [x : PS, y : PS, r : RS]
Ops == [what : {"apodize", "interp"}, holes : {<<h>> : h \in Hole1}, sym : {0, 1}, h : {2},
        bit : {1}, ibit : {2}, expand : {0, 3}, ebit : {4}]
       \cup [what : {"edge"}, holes : {<< >>}, sym : {0}, h : HS, bit : {8}, ibit : {2},
             expand : {0}, ebit : {4}]
Old == [p \in P |-> IF p[1] = p[2] THEN 1 ELSE 0]       \* some pixels start masked, bit 1
Init == /\ hist = << >> /\ bits = [p \in P |-> Old[p]] /\ pc = "run"
        /\ w = [p \in P |-> 1 + Old[p]] /\ mf = [p \in P |-> Old[p]]
Step(op) ==
  LET Z == Zone(op, N, N)
  IN /\ pc = "run" /\ Len(hist) < MAXOPS
     /\ hist' = Append(hist, op)
     /\ bits' = [p \in P |-> BitsAfter(op, N, N, Z, p[1], p[2], bits[p])]
     /\ w' = [p \in P |-> WeightAfter(Z, p[1], p[2], w[p])]
     /\ mf' = [p \in P |-> MfracAfter(Z, p[1], p[2], mf[p], 5)]
     /\ UNCHANGED pc
Emit == /\ pc = "run" /\ hist # << >>
        /\ PrintT("SCN " \o ToJson([kind |-> "hist", n |-> N, ops |-> hist]))
        /\ pc' = "end" /\ UNCHANGED <<hist, bits, w, mf>>
Next == Emit \/ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

AllZones == UNION {Zone(hist[i], N, N) : i \in DOMAIN hist}
(* the planes depend on the set of operations, not on their order *)
WeightsAreUnion == \A p \in P : w[p] = IF p \in AllZones THEN 0 ELSE 1 + Old[p]
MfracIsUnion == \A p \in P : mf[p] = IF p \in AllZones THEN 5 ELSE Old[p]
BitsAreUnion ==
  \A p \in P : \A b \in {1, 2, 4, 8} :
    (AndBits(bits[p], b) # 0) <=>
      \/ AndBits(Old[p], b) # 0
      \/ \E i \in DOMAIN hist :
           LET op == hist[i] Z == Zone(op, N, N)
           IN \/ b = op.bit /\ p \in Z
              \/ b = op.ibit /\ IsInterp(op) /\ p \in Z /\ Z # P
              \/ b = op.ebit /\ op.what # "edge" /\ op.expand > 0
                 /\ p \in Marked(Grown(op.holes, op.expand), N, N, op.sym)
(* a mask is below one exactly in the zone *)
BelowOneInZone ==
  \A i \in DOMAIN hist : ~IsInterp(hist[i]) =>
     \A p \in P : LET m == MaskOf(hist[i], N, N)[p[1]][p[2]]
                  IN /\ m >= -3 /\ m <= S
                     /\ (p \notin Zone(hist[i], N, N) => m >= S - 3)
(* four turns are the identity; symmetrising adds exactly one turn *)
TurnsBack == \A p \in P : Turned(Turned(Turned(Turned(p, N), N), N), N) = p
Kernel == pc = "end" \/ hist # << >> \/
  \A h \in HS : \A x \in 0..20 :
     /\ EdgeKern(h, x) <= EdgeKern(h, x + 1) + 6
     /\ EdgeKern(h, x) >= -6 /\ EdgeKern(h, x) <= S + 6
     /\ (x >= ApRange(h) => EdgeKern(h, x) >= S - 6)
     /\ Abs(Kern(x, 20) + Kern(-x, 20) - S) <= 6
     /\ \A n \in {1, 5, 9} : x < n => EdgeProfile(h, n, x) = EdgeProfile(h, n, n - 1 - x)
=============================================================================
