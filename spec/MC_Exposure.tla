----------------------------- MODULE MC_Exposure -----------------------------
(***************************************************************************)
(* Laws of the vocabulary of Exposure, for every small input; the inputs   *)
(* are printed as scenarios for the implementation.                        *)
(***************************************************************************)
EXTENDS Exposure, Json
CONSTANTS MAXN, MAXS, NB, VV, IV, NEXP
VARIABLES x
VVs == {0, 4, 12, INF}
VVt == {0, 4, INF}
Names == << "g", "r", "i", "z" >>
Wants == UNION {[1..n -> {"g", "r", "i", "z", "y"}] : n \in 0..2}
Row == [1..2 -> VV]
IRow == [1..2 -> IV]
Ex(v, im) == [x |-> 0, y |-> 0, im |-> << im >>, var |-> << v >>, mask |-> << <<0, 1>> >>, m |-> <<4, 0, 0, 4>>]
Init ==
  \/ \E h, w \in 1..MAXN : x = [k |-> "trim", h |-> h, w |-> w]
  \/ \E n \in 1..NB : \E want \in Wants : x = [k |-> "select", bands |-> SubSeq(Names, 1, n), want |-> want]
  \/ \E h, w \in {2, 5} : \E px \in 0..(w - 1) : \E py \in 0..(h - 1) : \E s \in 0..MAXS : \E clip \in {0, 1} :
       \E x0 \in {0, 3} :
       x = [k |-> "stamp", B |-> [x |-> x0, y |-> -2, w |-> w, h |-> h], p |-> <<px + x0, py - 2>>, s |-> s,
            clip |-> clip]
  \/ \E vs \in [1..NEXP -> Row] : \E is \in [1..NEXP -> IRow] :
       /\ x = [k |-> "coadd", es |-> [n \in 1..NEXP |-> Ex(vs[n], is[n])]]
Next == /\ x.k \in {"trim", "select", "stamp", "coadd"}
        /\ PrintT("SCN " \o ToJson(IF x.k = "coadd"
              THEN [kind |-> "coadd", var |-> [n \in 1..NEXP |-> x.es[n].var], im |-> [n \in 1..NEXP |-> x.es[n].im]]
              ELSE [kind |-> x.k, s |-> x]))
        /\ x' = [k |-> "end"]
Spec == Init /\ [][Next]_x

Trims == x.k = "trim" /\ ~TrimRefused(x.h, x.w) =>
  LET s == TrimSide(x.h, x.w)
  IN /\ s <= x.h /\ s <= x.w
     /\ TrimAt(x.h, s) = x.h - s - TrimAt(x.h, s)          \* equal margins on both sides
     /\ TrimAt(x.w, s) = x.w - s - TrimAt(x.w, s)
     /\ (x.h # x.w => s % 2 = 1)
Selects == x.k = "select" /\ AllKnown(x.bands, x.want) =>
  LET o == Selected(x.bands, x.want)
  IN /\ \A i \in DOMAIN o : o[i] \in 0..(Len(x.bands) - 1)
     /\ \A i, j \in DOMAIN o : i < j => o[i] < o[j]
     /\ (x.want # << >> => {x.bands[o[i] + 1] : i \in DOMAIN o} = RangeOf(x.want))
     /\ Selected(x.bands, x.bands) = Selected(x.bands, << >>)
Stamps == x.k = "stamp" =>
  LET b == BoxFor(x.p, x.s, x.clip, x.B)
  IN /\ ~Refused(x.p, x.s, x.clip, x.B) => Inside(b, x.B)
     /\ b.w > 0 /\ b.h > 0
     /\ x.p[1] >= b.x /\ x.p[1] < b.x + b.w /\ x.p[2] >= b.y /\ x.p[2] < b.y + b.h
     /\ (Inside(StampBox(x.p, x.s), x.B) => b = StampBox(x.p, x.s))
     /\ (x.clip = 0 => b.w = Side(x.s) /\ b.w \in {x.s, x.s + 1} /\ x.p[1] - b.x = b.x + b.w - 1 - x.p[1])
Rev(es) == [n \in DOMAIN es |-> es[Len(es) + 1 - n]]
Wei(es) == WTot(es)[1] > 0
Ims(es, U, j) == {es[n].im[1][j] : n \in {k \in U : Ws(es)[k][1] > 0}}
Coadds == x.k = "coadd" /\ Wei(x.es) =>
  \A j \in 1..2 :
    LET U == UsedAt(x.es, 1, j)
    IN /\ CoaddAt(x.es, 1, j) = CoaddAt(Rev(x.es), 1, j)
       /\ InvVarSum(x.es, 1, j) = InvVarSum(Rev(x.es), 1, j)
       /\ (U = DOMAIN x.es => \A q \in CoaddAt(x.es, 1, j) :
             /\ QLeq(QI(MinSet(Ims(x.es, U, j))), q) /\ QLeq(q, QI(MaxSet(Ims(x.es, U, j)))))
       \* never less precise than the best of them
       /\ \A n \in U : QLeq(InvVar(x.es[n].var[1][j]), InvVarSum(x.es, 1, j))
=============================================================================
