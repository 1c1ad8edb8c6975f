------------------------------ MODULE MC_Coadd ------------------------------
(***************************************************************************)
(* Laws the definitions of Coadd and Stamps must obey, for every small     *)
(* stamp: order of the bands does not matter, equal images stay equal,     *)
(* the mean stays between the extremes, weights behave as inverse          *)
(* variances, and symmetrisation is an idempotent, minimal closure.        *)
(***************************************************************************)
EXTENDS Coadd, Json
CONSTANTS NB, N, WV, IV, SYMN
VARIABLES x
One == << <<1>> >>
Row(S) == [1..N -> S]
Grids(S) == {<<r>> : r \in Row(S)}        \* 1 x N stamps
Mk(w, im) == [n |-> 1, w |-> w, edge |-> 0, im |-> im, mf |-> << >>, no |-> << >>,
              bm |-> im, om |-> << >>, psf |-> One, jac |-> 0, pjac |-> 0]
E(ws, ims) == [bands |-> [i \in 1..NB |-> Mk(ws[i], ims[i])], shear |-> [i \in 1..NB |-> i - 1]]
Rev(e) == [e EXCEPT !.shear = [i \in 1..NB |-> NB - i]]
SqGrids == [1..SYMN -> [1..SYMN -> {0, 1}]]

Init == \/ \E ws \in [1..NB -> Grids(WV)] : \E ims \in [1..NB -> Grids(IV)] :
             x = [k |-> "coadd", e |-> E(ws, ims), w |-> << >>]
        \/ \E g \in SqGrids : x = [k |-> "sym", e |-> << >>, w |-> g]
Next == /\ x.k \in {"coadd", "sym"}
        /\ PrintT("SCN " \o ToJson(IF x.k = "sym" THEN [kind |-> "sym", w |-> x.w]
             ELSE [kind |-> "coadd", w |-> [i \in 1..NB |-> x.e.bands[i].w],
                   im |-> [i \in 1..NB |-> x.e.bands[i].im]]))
        /\ x' = [x EXCEPT !.k = "end"]
Spec == Init /\ [][Next]_x

IsC == x.k = "coadd"
Cells == {<<1, j>> : j \in 1..N}
OrderFree == IsC => /\ CoaddFlags(x.e) = CoaddFlags(Rev(x.e))
                    /\ CoaddFlags(x.e) = 0 =>
                         \A c \in Cells : /\ ValAt(x.e, "im", c[1], c[2]) = ValAt(Rev(x.e), "im", c[1], c[2])
                                          /\ WgtAt(x.e, c[1], c[2]) = WgtAt(Rev(x.e), c[1], c[2])
Between == IsC /\ CoaddFlags(x.e) = 0 => \A c \in Cells :
   LET vs == {x.e.bands[i].im[c[1]][c[2]] : i \in 1..NB}
   IN QLeq(QI(MinSet(vs)), ValAt(x.e, "im", c[1], c[2])) /\ QLeq(ValAt(x.e, "im", c[1], c[2]), QI(MaxSet(vs)))
(* never more precise than all the data together, nor better than zero where a band has none *)
WeightBounds == IsC /\ CoaddFlags(x.e) = 0 => \A c \in Cells :
   LET s == SumSeq([i \in 1..NB |-> x.e.bands[i].w[c[1]][c[2]]])
   IN QLeq(WgtAt(x.e, c[1], c[2]), QI(s))
      /\ ((WgtAt(x.e, c[1], c[2])[1] = 0) = (\E i \in 1..NB : x.e.bands[i].w[c[1]][c[2]] = 0))
      /\ (\A i \in 1..NB : x.e.bands[i].w[c[1]][c[2]] * 2 = Meds(x.e)[i])
           => WgtAt(x.e, c[1], c[2]) = QI(s)
UsableSomewhere == IsC /\ CoaddFlags(x.e) = 0 => \E c \in Cells : WgtAt(x.e, c[1], c[2])[1] > 0

Rot(g) == [i \in 1..SYMN |-> [j \in 1..SYMN |-> g[j][SYMN + 1 - i]]]
IsS == x.k = "sym"
SymIdempotent == IsS => SymWeight(SymWeight(x.w)) = SymWeight(x.w)
SymSymmetric == IsS => Rot(SymWeight(x.w)) = SymWeight(x.w)
SymCommutes == IsS => SymWeight(Rot(x.w)) = SymWeight(x.w)
SymMinimal == IsS => \A i, j \in 1..SYMN :
   SymWeight(x.w)[i][j] = IF \E k \in 0..3 : (CASE k = 0 -> x.w [] k = 1 -> Rot(x.w)
                              [] k = 2 -> Rot(Rot(x.w)) [] OTHER -> Rot(Rot(Rot(x.w))))[i][j] = 0
                          THEN 0 ELSE x.w[i][j]
=============================================================================
