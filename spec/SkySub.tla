------------------------------- MODULE SkySub -------------------------------
(***************************************************************************)
(* Iterated detection and sky subtraction (property L11).                  *)
(*                                                                         *)
(* A band is [im : rows, mask : rows of bit values].  The background is    *)
(* one level over the pixels which have none of the ignored bits; a        *)
(* detection marks the pixels above the threshold with the detected bit.   *)
(* A step may fail: a fault is <<call number of the band's run, which>>    *)
(* with which in {"back", "detect"}.                                       *)
(***************************************************************************)
EXTENDS Common

PixSet(b) == {<<i, j>> : i \in DOMAIN b.im, j \in DOMAIN b.im[1]}
Usable(b, ign) == {p \in PixSet(b) : AndBits(b.mask[p[1]][p[2]], ign) = 0}
Level(b, ign) == LET V == {b.im[p[1]][p[2]] : p \in Usable(b, ign)}
                 IN CHOOSE v \in V : \A u \in V : v <= u
Lowered(b, v) == [b EXCEPT !.im = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> @[i][j] - v]]]
Detected(b, thr, det) ==
  [b EXCEPT !.mask = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |->
     OrBits(MinusBits(@[i][j], det), IF b.im[i][j] > thr THEN det ELSE 0)]]]

(* state of one band's run: [b, i : iterations completed, sum, stop, last : the level last taken] *)
Start(b) == [b |-> b, i |-> 0, sum |-> 0, stop |-> 0, last |-> 0, backs |-> 0, detects |-> 0]
Fails(faults, i, which) == \E k \in DOMAIN faults : faults[k] = << i, which >>
Iteration(s, faults, ign, thr, det) ==
  LET n == s.i + 1
      noback == Fails(faults, n, "back") \/ Usable(s.b, ign) = {}
  IN IF s.stop = 1 THEN s
     ELSE IF noback THEN [s EXCEPT !.stop = 1, !.backs = @ + 1]
     ELSE LET v == Level(s.b, ign) low == Lowered(s.b, v)
          IN IF Fails(faults, n, "detect")
             THEN [s EXCEPT !.b = low, !.stop = 1, !.last = v, !.backs = @ + 1, !.detects = @ + 1]
             ELSE [s EXCEPT !.b = Detected(low, thr, det), !.i = n, !.sum = @ + v, !.last = v,
                            !.backs = @ + 1, !.detects = @ + 1]
RECURSIVE Iterated(_, _, _, _, _, _)
Iterated(s, n, faults, ign, thr, det) ==
  IF n = 0 THEN s ELSE Iterated(Iteration(s, faults, ign, thr, det), n - 1, faults, ign, thr, det)
RunBand(b, niter, faults, ign, thr, det) == Iterated(Start(b), niter, faults, ign, thr, det)
=============================================================================
