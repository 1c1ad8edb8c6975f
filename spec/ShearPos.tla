----------------------------- MODULE ShearPos -----------------------------
(***************************************************************************)
(* Positions under metacal shear.                                          *)
(*                                                                         *)
(* An image has a Jacobian mapping pixel offsets from (row0, col0) to      *)
(* tangent-plane coordinates (v, u), and a canonical centre                *)
(* ((nrow-1)/2, (ncol-1)/2).  Shear type t with step g multiplies (u, v)   *)
(* offsets from the centre by the unit-determinant shear matrix.  Steps    *)
(* are chosen so that the matrix is rational; step 1/100 is represented    *)
(* by its rounding to 5 digits (error below 1e-4 pixel on 100 pixels).     *)
(***************************************************************************)
EXTENDS Common

Skip == {"noshear", "1p_psf", "1m_psf", "2p_psf", "2m_psf"}
Sheared == {"1p", "1m", "2p", "2m"}
Opposite(t) == CASE t = "1p" -> "1m" [] t = "1m" -> "1p"
                 [] t = "2p" -> "2m" [] t = "2m" -> "2p"
                 [] OTHER -> t

(* step name -> <<1/sqrt(1-g^2) * (1+g), 1/sqrt(1-g^2) * (1-g)>> (axis factors) *)
Axis(step) == CASE step = "3/5"   -> << <<2, 1>>, <<1, 2>> >>
                [] step = "4/5"   -> << <<3, 1>>, <<1, 3>> >>
                [] step = "5/13"  -> << <<3, 2>>, <<2, 3>> >>
                [] step = "1/100" -> << <<20201, 20000>>, <<19801, 20000>> >>

(* the matrix <<a, b, c, d>> acting on (u, v) *)
Matrix(t, step) ==
  LET p == Axis(step)[1]
      m == Axis(step)[2]
      h == QDiv(QAdd(p, m), QI(2))        \* cosh-like diagonal
      o == QDiv(QSub(p, m), QI(2))        \* off-diagonal
  IN CASE t = "1p" -> <<p, QI(0), QI(0), m>>
       [] t = "1m" -> <<m, QI(0), QI(0), p>>
       [] t = "2p" -> <<h, o, o, h>>
       [] t = "2m" -> <<h, QNeg(o), QNeg(o), h>>

(* jac = [vr, vc, ur, uc : integers over jd; row0, col0 : rationals] *)
ToVU(j, p) ==
  LET dr == QSub(p[1], j.row0)
      dc == QSub(p[2], j.col0)
  IN << QAdd(QMul(Q(j.vr, j.jd), dr), QMul(Q(j.vc, j.jd), dc)),
        QAdd(QMul(Q(j.ur, j.jd), dr), QMul(Q(j.uc, j.jd), dc)) >>
FromVU(j, w) ==
  LET det == Q(j.vr * j.uc - j.vc * j.ur, j.jd * j.jd)
      dr == QDiv(QSub(QMul(Q(j.uc, j.jd), w[1]), QMul(Q(j.vc, j.jd), w[2])), det)
      dc == QDiv(QSub(QMul(Q(j.vr, j.jd), w[2]), QMul(Q(j.ur, j.jd), w[1])), det)
  IN << QAdd(dr, j.row0), QAdd(dc, j.col0) >>

Centre(dims) == << Q(dims[1] - 1, 2), Q(dims[2] - 1, 2) >>

(* apply the matrix of (t, step) about the image centre to pixel position p *)
ShearAt(p, t, step, j, dims) ==
  IF t \in Skip THEN p
  ELSE LET c == ToVU(j, Centre(dims))
           w == ToVU(j, p)
           m == Matrix(t, step)
           du == QSub(w[2], c[2])
           dv == QSub(w[1], c[1])
           u == QAdd(QAdd(QMul(m[1], du), QMul(m[2], dv)), c[2])
           v == QAdd(QAdd(QMul(m[3], du), QMul(m[4], dv)), c[1])
       IN FromVU(j, <<v, u>>)

(* a shear and its opposite are inverse matrices, so unshearing is shearing
   with the opposite type *)
UnshearAt(p, t, step, j, dims) == ShearAt(p, Opposite(t), step, j, dims)

KnownType(t) == t \in Skip \cup Sheared
=============================================================================
