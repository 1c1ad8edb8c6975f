---------------------------- MODULE MC_BandMask ----------------------------
(***************************************************************************)
(* Histories of maskings of an N by N exposure whose corner is anywhere,   *)
(* with any subset of the optional products.                               *)
(***************************************************************************)
EXTENDS BandMask, Json
CONSTANTS N, MAXOPS, GROW, XS, RS, OS
XSq == {-9, 6}
XSt == {-9, 6, 30}
OSq == {<<0, 0>>, <<7, -3>>}
VARIABLES o, has, hist, w, ob, mf, pc
vars == <<o, has, hist, w, ob, mf, pc>>

P == Everything(N, N)
Bits == [edge |-> 2, bright |-> 4, expanded |-> 8]
StarsAt(c) == {<< [x |-> x + 4 * c[1], y |-> y + 4 * c[2], r |-> r] >> : x \in XS, y \in XS, r \in RS}
StepsAt(c) == {[what |-> "edge", stars |-> << >>]} \cup {[what |-> "bright", stars |-> s] : s \in StarsAt(c)}
Products == SUBSET {"noise", "mfrac", "ormasks"}
Old == [p \in P |-> IF p[1] = p[2] THEN 1 ELSE 0]
Init == /\ o \in OS /\ has \in Products /\ hist = << >> /\ pc = "run"
        /\ w = [p \in P |-> 1] /\ ob = [p \in P |-> Old[p]] /\ mf = [p \in P |-> 0]
Do(s) ==
  LET Z == HitBy(s, o[1], o[2], N, N) G == GrownBy(s, o[1], o[2], N, N, GROW)
  IN /\ pc = "run" /\ Len(hist) < MAXOPS
     /\ hist' = Append(hist, s)
     /\ w' = [p \in P |-> WeightAfter(Z, p[1], p[2], w[p])]
     /\ ob' = [p \in P |-> MaskedBits(s, Z, G, p, Bits, ob[p])]
     /\ mf' = [p \in P |-> IF "mfrac" \in has THEN MfracAfter(Z, p[1], p[2], mf[p], 1) ELSE 0]
     /\ UNCHANGED <<o, has, pc>>
Emit == /\ pc = "run" /\ hist # << >>
        /\ PrintT("SCN " \o ToJson([kind |-> "bandmask", o |-> o, noise |-> IF "noise" \in has THEN 1 ELSE 0,
             mfrac |-> IF "mfrac" \in has THEN 1 ELSE 0, ormasks |-> IF "ormasks" \in has THEN 1 ELSE 0,
             ops |-> hist]))
        /\ pc' = "end" /\ UNCHANGED <<o, has, hist, w, ob, mf>>
Next == Emit \/ \E s \in StepsAt(o) : Do(s)
Spec == Init /\ [][Next]_vars

Hit == UNION {HitBy(hist[i], o[1], o[2], N, N) : i \in DOMAIN hist}
GrownAll == UNION {GrownBy(hist[i], o[1], o[2], N, N, GROW) : i \in DOMAIN hist}
VarianceIsUnion == \A p \in P : (w[p] = 0) <=> p \in Hit
FractionIsUnion == \A p \in P : mf[p] = IF "mfrac" \in has /\ p \in Hit THEN 1 ELSE 0
BitsAreUnion == \A p \in P :
  /\ AndBits(ob[p], 1) = Old[p]
  /\ (AndBits(ob[p], 8) # 0) <=> p \in GrownAll
  /\ (AndBits(ob[p], 4) # 0) <=> \E i \in DOMAIN hist : hist[i].what = "bright" /\ p \in HitBy(hist[i], o[1], o[2], N, N)
  /\ (AndBits(ob[p], 2) # 0) <=> \E i \in DOMAIN hist : hist[i].what = "edge" /\ p \in HitBy(hist[i], o[1], o[2], N, N)
(* bright pixels are always within the grown mask *)
BrightInsideGrown == \A i \in DOMAIN hist : hist[i].what = "bright" =>
  HitBy(hist[i], o[1], o[2], N, N) \subseteq GrownBy(hist[i], o[1], o[2], N, N, GROW)
(* only the position relative to the exposure's corner matters *)
FrameFree == \A i \in DOMAIN hist : \A d \in {<<0, 0>>, <<5, 2>>} :
  LET s == [hist[i] EXCEPT !.stars = [j \in DOMAIN @ |->
              [@[j] EXCEPT !.x = @ + 4 * d[1], !.y = @ + 4 * d[2]]]]
  IN /\ HitBy(s, o[1] + d[1], o[2] + d[2], N, N) = HitBy(hist[i], o[1], o[2], N, N)
     /\ GrownBy(s, o[1] + d[1], o[2] + d[2], N, N, GROW) = GrownBy(hist[i], o[1], o[2], N, N, GROW)
=============================================================================
