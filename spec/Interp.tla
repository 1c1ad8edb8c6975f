------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation over masked pixels (property K04).                        *)
(*                                                                         *)
(* Bad pixels are replaced by a piecewise cubic over a triangulation of    *)
(* the good pixels within BUFF of a bad one.  What the specification says  *)
(* of the values: nothing outside the hull of those good pixels is         *)
(* invented (zero there), and an image which is linear on those pixels is  *)
(* continued exactly.                                                      *)
(***************************************************************************)
EXTENDS Common

Pix(nr, nc) == (0..(nr - 1)) \X (0..(nc - 1))
Within(p, q, b) == Abs(p[1] - q[1]) <= b /\ Abs(p[2] - q[2]) <= b
Near_(bad, nr, nc, b) ==          \* good pixels within b of a bad one
  {q \in Pix(nr, nc) \ bad : \E p \in bad : Within(p, q, b)}
Isolated(bad, nr, nc, b) ==       \* bad pixels with no good one within b
  {p \in bad : \A q \in Pix(nr, nc) : Within(p, q, b) => q \in bad}

(* what happens: "none" declined, "image" returned, or the argument error *)
Outcome(bad, nr, nc, maxnum, maxden, noise, hasrng, hasw) ==
  IF Cardinality(bad) * maxden > maxnum * nr * nc \/ Cardinality(bad) = nr * nc THEN "none"
  ELSE IF noise = 1 /\ (hasrng = 0 \/ hasw = 0) THEN "error" ELSE "image"

(* ---- hull ---- *)
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
(* p is outside the hull of G exactly when some line through p and a point of
   G has all of G on one side and does not have p between points of G *)
OutsideHull(p, G) ==
  \/ G = {}
  \/ \E g \in G : /\ \A h \in G : Cross(Sub(g, p), Sub(h, p)) >= 0
                  /\ \A h \in G : Cross(Sub(g, p), Sub(h, p)) = 0 => Dot(Sub(g, p), Sub(h, p)) > 0
(* strictly inside: every closed half plane through p has a point strictly in it *)
InsideHull(p, G) ==
  G # {} /\ \A g \in G : \E h \in G : Cross(Sub(g, p), Sub(h, p)) < 0
Spans(G) == \E a, b, c \in G : Cross(Sub(b, a), Sub(c, a)) # 0

Linear(L, p) == L[1] + L[2] * p[1] + L[3] * p[2]
=============================================================================
