---------------------------- MODULE MC_ShearPos ----------------------------
(* A point wanders through an image: each step shears or unshears it.  The
   inverse laws are checked in every reachable state. *)
EXTENDS ShearPos, Json
CONSTANTS Positions, Dims, Jacs, Steps, Depth

VARIABLES pos, start, env, hist
vars == <<pos, start, env, hist>>

PosQ(p) == << Q(p[1], 2), Q(p[2], 2) >>

CPositions == {<<0, 0>>, <<7, 30>>, <<22, 5>>, <<-4, 13>>}
CDims == {<<8, 8>>, <<11, 16>>}
J(vr, vc, ur, uc, r0, c0) == [vr |-> vr, vc |-> vc, ur |-> ur, uc |-> uc, jd |-> 4,
                              row0 |-> r0, col0 |-> c0]
CJacs == {J(1, 0, 0, 1, <<0, 1>>, <<0, 1>>),      \* plain scale
          J(1, 0, 0, -1, <<3, 1>>, <<5, 1>>),     \* flipped, offset origin
          J(0, 2, -2, 0, <<7, 2>>, <<7, 2>>),     \* rotated by a quarter turn
          J(2, 1, 0, 3, <<1, 1>>, <<-2, 1>>)}     \* sheared, anisotropic
CSteps == {"3/5", "4/5", "5/13", "1/100"}

Init == /\ start \in Positions
        /\ pos = PosQ(start)
        /\ env \in [dims : Dims, jac : Jacs, step : Steps]
        /\ hist = << >>

Move(op, t) ==
  /\ Len(hist) < (IF env.step = "1/100" THEN 1 ELSE Depth)
  /\ pos' = IF op = "shear" THEN ShearAt(pos, t, env.step, env.jac, env.dims)
                            ELSE UnshearAt(pos, t, env.step, env.jac, env.dims)
  /\ hist' = Append(hist, <<op, t>>)
  /\ UNCHANGED <<start, env>>

Next == \E op \in {"shear", "unshear"}, t \in Sheared \cup {"noshear", "1p_psf"} : Move(op, t)
Spec == Init /\ [][Next]_vars

Exact == env.step # "1/100"
(* unshear undoes shear and conversely; opposite types undo each other *)
Inverse == Exact => \A t \in Sheared :
  LET s == ShearAt(pos, t, env.step, env.jac, env.dims)
      o == ShearAt(s, Opposite(t), env.step, env.jac, env.dims)
  IN /\ UnshearAt(s, t, env.step, env.jac, env.dims) = pos
     /\ o = pos
     /\ (s = pos) = (pos = Centre(env.dims) \/ s = pos)
CentreFixed == \A t \in Sheared :
  ShearAt(Centre(env.dims), t, env.step, env.jac, env.dims) = Centre(env.dims)
NotTrivial == (Exact /\ pos[1] # Centre(env.dims)[1] /\ pos[2] # Centre(env.dims)[2]) =>
  \A t \in Sheared : ShearAt(pos, t, env.step, env.jac, env.dims) # pos
(* a history that is undone step by step returns to the start *)
Undone == (Len(hist) = 2 /\ Exact /\ hist[1][2] = hist[2][2] /\ hist[1][1] # hist[2][1])
            => pos = PosQ(start)

Emit == (Len(hist) = 0) =>
   PrintT("SCN " \o ToJson([kind |-> "point", start |-> start, dims |-> env.dims,
            jac |-> env.jac, step |-> env.step]))
=============================================================================
