----------------------------- MODULE MC_Detect -----------------------------
(***************************************************************************)
(* Laws of stamps and boxes over every small geometry.                     *)
(***************************************************************************)
EXTENDS Detect, Json
CONSTANTS DIMS, BOXES, POS4, RADS, MINS, MAXS
VARIABLES x
QuickPos == {-9, -2, 0, 1, 5, 7, 10, 17, 19, 30}
DeepPos == -14..50
DeepRads == 0..60
Img(n) == [i \in 1..n |-> [j \in 1..n |-> 100 * i + j]]
Init == \/ \E n \in DIMS : \E B \in BOXES : \E y, z \in POS4 :
             x = [k |-> "stamp", n |-> n, B |-> B, y |-> y, z |-> z]
        \/ \E r \in RADS : \E mn \in MINS : \E mx \in MAXS : \E p \in {0, 2, 3} : \E f \in {1, 3, 4} :
             mn <= mx /\ x = [k |-> "box", r |-> r,
                   m |-> [type |-> "iso_radius", min |-> mn, max |-> mx, rmin4 |-> 4, rfac2 |-> f,
                          pad |-> p, sfac |-> 5]]
Next == /\ x.k \in {"stamp", "box"}
        /\ PrintT("SCN " \o ToJson([kind |-> x.k, x |-> x]))
        /\ x' = [k |-> "end"]
Spec == Init /\ [][Next]_x

IsS == x.k = "stamp"
St == Stamp(Img(x.n), x.n, x.n, x.y, x.z, x.B, "im")
Sm == Stamp([i \in 1..x.n |-> [j \in 1..x.n |-> 0]], x.n, x.n, x.y, x.z, x.B, "bm")
R0 == Start(x.y, x.B)
C0 == Start(x.z, x.B)
(* in-image pixels are copied, in place and once; the rest is marked *)
Faithful == IsS => \A i, j \in 1..x.B :
   IF R0 + i <= x.n /\ C0 + j <= x.n THEN St[i][j] = 100 * (R0 + i) + C0 + j /\ Sm[i][j] = 0
   ELSE St[i][j] = 0 /\ Sm[i][j] = EDGE
NotNegative == IsS => R0 >= 0 /\ C0 >= 0
(* a position inside the image lies in its stamp *)
Inside == IsS /\ x.y \in 0..(4 * x.n - 1) /\ x.z \in 0..(4 * x.n - 1) /\ x.B > 1 =>
   /\ 4 * R0 <= x.y /\ x.y < 4 * (R0 + x.B) /\ 4 * C0 <= x.z /\ x.z < 4 * (C0 + x.B)
(* off the low edge the corner is where half the box says *)
Centred == IsS /\ TruncQ(<<x.y, 4>>) >= x.B \div 2 => R0 = TruncQ(<<x.y, 4>>) - (x.B \div 2) + 1
IsB == x.k = "box"
Obj(r) == [rad4 |-> r, fr4 |-> 4, a |-> 1, b |-> 1, dy |-> 0, dx |-> 0]
One == CHOOSE s \in Boxes(x.m, Obj(x.r)) : TRUE
WithinLimits == IsB => One \in Bins(x.m) /\ One <= x.m.max /\ (One = x.m.max \/ One >= x.m.min)
LargeEnough == IsB => \/ One >= RadSize(x.m, Obj(x.r)) \/ One = x.m.max
Tight == IsB => \A s \in Bins(x.m) : s < One =>
   s < Max2(RadSize(x.m, Obj(x.r)), x.m.min)
Monotone == IsB => \A r2 \in RADS : r2 >= x.r =>
   (CHOOSE s \in Boxes(x.m, Obj(r2)) : TRUE) >= One
=============================================================================
