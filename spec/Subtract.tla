------------------------------ MODULE Subtract ------------------------------
(***************************************************************************)
(* The image kept by a model subtractor and by a noise replacer            *)
(* (properties L05 and L06).                                               *)
(*                                                                         *)
(* Both hold an image from which every child has been taken out, and put   *)
(* children back while contexts are open.  The open contexts are a stack.  *)
(*                                                                         *)
(* A model is [box : <<x, y, w, h>>, m : rows of pixels]; a frame of an    *)
(* image is <<x, y, w, h>> too.  Events are [t |-> ...].                   *)
(***************************************************************************)
EXTENDS Common

BoxHas(b, X, Y) == X >= b[1] /\ Y >= b[2] /\ X < b[1] + b[3] /\ Y < b[2] + b[4]
(* a box grown by half the kernel (kh rows, kw columns), cut to the observed frame *)
GrownBox(b, kh, kw, obs) ==
  LET gx == kw \div 2 gy == kh \div 2
      x0 == Max2(b[1] - gx, obs[1]) y0 == Max2(b[2] - gy, obs[2])
      x1 == Min2(b[1] + b[3] + gx, obs[1] + obs[3]) y1 == Min2(b[2] + b[4] + gy, obs[2] + obs[4])
  IN << x0, y0, Max2(0, x1 - x0), Max2(0, y1 - y0) >>
RawAt(mo, R, X, Y) == IF BoxHas(mo.box, X, Y) /\ BoxHas(R, X, Y)
                      THEN mo.m[Y - mo.box[2] + 1][X - mo.box[1] + 1] ELSE 0
(* the model convolved with the kernel (odd sides), within the grown box *)
RECURSIVE ConvSum(_, _, _, _, _, _)
ConvSum(mo, R, ker, n, X, Y) ==
  LET kh == Len(ker) kw == Len(ker[1])
  IN IF n = kh * kw THEN 0
     ELSE LET a == n \div kw c == n % kw
              v == ker[a + 1][c + 1]
          IN (IF v = 0 THEN 0 ELSE v * RawAt(mo, R, X - (c - kw \div 2), Y - (a - kh \div 2)))
             + ConvSum(mo, R, ker, n + 1, X, Y)
ModelAt(mo, ker, obs, X, Y) ==
  LET R == GrownBox(mo.box, Len(ker), Len(ker[1]), obs)
  IN IF BoxHas(R, X, Y) THEN ConvSum(mo, R, ker, 0, X, Y) ELSE 0
(* over a whole image frame *)
ModelGrid(mo, ker, obs, fr) ==
  [i \in 1..fr[4] |-> [j \in 1..fr[3] |-> ModelAt(mo, ker, obs, fr[1] + j - 1, fr[2] + i - 1)]]

(* ---- the stack of open contexts ---- *)
Known(ids, s) == s \in ids
StackAfter(ids, st, ev) ==
  CASE ev.t = "enter" /\ Known(ids, ev.id) -> Append(st, ev.id)
    [] ev.t = "leave" -> SubSeq(st, 1, Len(st) - 1)
    [] OTHER -> st
RECURSIVE StackAt(_, _, _)
StackAt(ids, evs, n) == IF n = 0 THEN << >> ELSE StackAfter(ids, StackAt(ids, evs, n - 1), evs[n])

(* the image: everything out, the open contexts put back *)
RECURSIVE SumIds(_, _)
SumIds(ids, f) == IF ids = {} THEN 0
                  ELSE LET s == CHOOSE x \in ids : TRUE IN f[s] + SumIds(ids \ {s}, f)
Shown(orig, models, out, st) == orig - SumIds(out, models) + SumIds(RangeOf(st), models)
=============================================================================
