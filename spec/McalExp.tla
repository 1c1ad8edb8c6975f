------------------------------ MODULE McalExp ------------------------------
(***************************************************************************)
(* Metacal on multiband exposures (property L07).                          *)
(*                                                                         *)
(* A request is a list of types, bands and optional kernel statistics.     *)
(* Each product is a pair of terms <<data term, noise term>>; a term       *)
(* [band, type, turned, kernel] says which band's plane was sheared how,   *)
(* in which frame, and which band's kernel it is seen through.             *)
(***************************************************************************)
EXTENDS Common

Types == {"noshear", "1p", "1m", "2p", "2m"}
DefaultTypes == << "noshear", "1p", "1m" >>
STEPS == 100                     \* the shear is 1 / STEPS

RECURSIVE Distinct(_)
Distinct(s) == IF s = << >> THEN << >>
               ELSE LET h == SubSeq(s, 1, Len(s) - 1) x == s[Len(s)] d == Distinct(h)
                    IN IF x \in RangeOf(d) THEN d ELSE Append(d, x)

(* ---- what is answered ---- *)
Multi(api) == api \in {"mb_fix", "mb"}
Fixed(api) == api \in {"mb_fix", "exp_fix"}
Refused(api, nb, nstats, types) ==
  IF Multi(api) /\ nstats # 0 /\ nstats # nb THEN "raise:AssertionError"
  ELSE IF \E i \in DOMAIN types : types[i] \notin Types THEN "raise:ValueError"
  ELSE "ok"
DataTerm(t, b) == [plane |-> "data", band |-> b, type |-> t, turned |-> 0, kernel |-> b]
NoiseTerm(t, b) == [plane |-> "noise", band |-> b, type |-> t, turned |-> 1, kernel |-> b]
Product(api, t, b) == IF Fixed(api) THEN << DataTerm(t, b), NoiseTerm(t, b) >> ELSE << DataTerm(t, b) >>
VarFactor(api) == IF Fixed(api) THEN 2 ELSE 1

(* ---- shears of second moments <<uu, uv, vv>> and of positions ---- *)
(* n / d rounded to the nearest integer *)
Nearest(n, d) == (2 * n + d) \div (2 * d)
(* S C S^T with S = (1/sqrt(1-g^2)) [[1+g1, g2], [g2, 1-g1]] *)
Sheared(t, m) ==
  CASE t = "noshear" -> m
    [] t = "1p" -> << Nearest(101 * m[1], 99), m[2], Nearest(99 * m[3], 101) >>
    [] t = "1m" -> << Nearest(99 * m[1], 101), m[2], Nearest(101 * m[3], 99) >>
    [] t = "2p" -> << Nearest(10000 * m[1] + 200 * m[2] + m[3], 9999),
                      Nearest(100 * m[1] + 10001 * m[2] + 100 * m[3], 9999),
                      Nearest(m[1] + 200 * m[2] + 10000 * m[3], 9999) >>
    [] t = "2m" -> << Nearest(10000 * m[1] - 200 * m[2] + m[3], 9999),
                      Nearest(10001 * m[2] - 100 * m[1] - 100 * m[3], 9999),
                      Nearest(m[1] - 200 * m[2] + 10000 * m[3], 9999) >>
(* positions, to first order (the second order is below 1e-4 of the value) *)
Moved(t, p) ==
  CASE t = "noshear" -> p
    [] t = "1p" -> << p[1] + Nearest(p[1], 100), p[2] - Nearest(p[2], 100) >>
    [] t = "1m" -> << p[1] - Nearest(p[1], 100), p[2] + Nearest(p[2], 100) >>
    [] t = "2p" -> << p[1] + Nearest(p[2], 100), p[2] + Nearest(p[1], 100) >>
    [] t = "2m" -> << p[1] - Nearest(p[2], 100), p[2] - Nearest(p[1], 100) >>
(* in a frame turned by a quarter a shear acts as its inverse, and the PSF, which
   is not turned, as if turned *)
Inverse(t) == CASE t = "1p" -> "1m" [] t = "1m" -> "1p" [] t = "2p" -> "2m" [] t = "2m" -> "2p" [] OTHER -> t
Turned(m) == << m[3], -m[2], m[1] >>

Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
(* moments of an object with moments m after psf p is taken out and kernel k put on *)
AfterMetacal(t, m, p, k) == Plus(Sheared(t, Minus(m, p)), k)
Close(a, b, tol) == \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
=============================================================================
