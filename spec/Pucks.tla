------------------------------- MODULE Pucks --------------------------------
(***************************************************************************)
(* Two balls which do not rotate.  The first one, of radius r, moves above *)
(* the plane y = 0 (contact with friction mu, seen within the proximity    *)
(* prox) and the second one may be held to it by a ball-and-socket joint   *)
(* (then there is no plane).  The step is computed: the ball flies, sticks *)
(* or slides.                                                              *)
(***************************************************************************)
EXTENDS Mat
Flat(v) == <<v[1], Zero, v[3]>>
Gap(x, s) == FSub(s.p[2], x.r)
Seen(x, s, dt) == FLt(FAdd(Gap(x, s), FMul(dt, s.v[2])), x.prox)
\* without contact
Free(x, s, dt, u) == VAdd(s.v, VScale(FDiv(dt, x.m), u))
Puck(x, s, dt, u) ==
  LET v0 == Free(x, s, dt, u)
      need == FDiv(FNeg(FAdd(FDiv(Gap(x, s), dt), v0[2])), FDiv(dt, x.m))     \* normal force which closes the gap
      fn == IF Seen(x, s, dt) /\ FLt(Zero, need) THEN need ELSE Zero
      t == VScale(FNeg(FDiv(x.m, dt)), Flat(v0))                               \* force which stops the ball
      nt == Norm(t)
      lim == FMul(x.mu, fn)
      ft == IF fn = Zero \/ nt = Zero THEN Vec0(3) ELSE IF FLe(nt, lim) THEN t ELSE VScale(FDiv(lim, nt), t)
      f == <<ft[1], fn, ft[3]>>
      v == VAdd(v0, VScale(FDiv(dt, x.m), f))
  IN [p |-> VAdd(s.p, VScale(dt, v)), v |-> v, f |-> f, on |-> Seen(x, s, dt),
      mode |-> IF fn = Zero THEN "flies" ELSE IF FLe(nt, lim) THEN "sticks" ELSE "slides"]
\* two balls: a force f on the second one, -f on the first one
Pair(x, s, dt, u) ==
  LET a == VAdd(s.v, VScale(FDiv(dt, x.m), u[1]))
      b == VAdd(s.v2, VScale(FDiv(dt, x.m2), u[2]))
      gap == VAdd(VScale(FDiv(One, dt), VSub(s.p2, s.p)), VSub(b, a))
      y == FAdd(FDiv(dt, x.m), FDiv(dt, x.m2))
      f == VScale(FNeg(FDiv(One, y)), gap)
      v == VSub(a, VScale(FDiv(dt, x.m), f))
      w == VAdd(b, VScale(FDiv(dt, x.m2), f))
  IN [p |-> VAdd(s.p, VScale(dt, v)), v |-> v, p2 |-> VAdd(s.p2, VScale(dt, w)), v2 |-> w, f |-> f]
=============================================================================
