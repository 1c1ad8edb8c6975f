------------------------------ MODULE MC_Interp ------------------------------
(***************************************************************************)
(* Every mask of an NR by NC image: facts about buffers, isolation, hulls. *)
(***************************************************************************)
EXTENDS Interp, Json
CONSTANTS NR, NC, BUFFS
VARIABLES bad, b, pc
vars == <<bad, b, pc>>
A == Pix(NR, NC)
Init == bad \in SUBSET A /\ b \in BUFFS /\ pc = "start"
G == Near_(bad, NR, NC, b)
Iso == Isolated(bad, NR, NC, b)
Emit == /\ pc = "start"
        /\ bad # A /\ bad # {} /\ Spans(Near_(bad, NR, NC, 4))
        /\ PrintT("SCN " \o ToJson([kind |-> "mask", nr |-> NR, nc |-> NC, iso |-> b, bad |-> bad]))
        /\ pc' = "end" /\ UNCHANGED <<bad, b>>
Next == Emit
Spec == Init /\ [][Next]_vars
GoodOnly == G \cap bad = {}
Grows == Near_(bad, NR, NC, b) \subseteq Near_(bad, NR, NC, b + 1)
IsoShrinks == Isolated(bad, NR, NC, b + 1) \subseteq Isolated(bad, NR, NC, b)
IsoZero == Isolated(bad, NR, NC, 0) = bad
(* what remains after filling always has support within the buffer *)
Supported == \A p \in bad \ Iso : \E q \in A \ bad : Within(p, q, b)
HullPartition == \A p \in bad : ~(OutsideHull(p, G) /\ InsideHull(p, G))
HullBox == \A p \in bad : InsideHull(p, G) =>
   /\ \E q \in G : q[1] <= p[1] /\ \E h \in G : h[1] >= p[1]
   /\ \E q \in G : q[2] <= p[2] /\ \E h \in G : h[2] >= p[2]
NeverBoth == Outcome(bad, NR, NC, 1, 1, 0, 0, 0) = "none" <=> bad = A
=============================================================================
