------------------------------- MODULE Carts --------------------------------
(***************************************************************************)
(* Two carts on a line, the second one being carried by the first: masses  *)
(* m, positions q (relative), velocities w, proportional-derivative gains  *)
(* kp, kd towards the targets qd, vd, forces u of the user, and limits     *)
(* mn, mx within the proximity prox (lim tells which ones exist).  The     *)
(* step is computed, not only characterised: the active bounds are found   *)
(* among all the combinations.                                             *)
(***************************************************************************)
EXTENDS Mass
Mat2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
Inv2(A) == LET d == FSub(FMul(A[1][1], A[2][2]), FMul(A[1][2], A[2][1]))
           IN Mat2(FDiv(A[2][2], d), FNeg(FDiv(A[1][2], d)), FNeg(FDiv(A[2][1], d)), FDiv(A[1][1], d))
Inertia(m) == Mat2(FAdd(m[1], m[2]), m[2], m[2], m[2])
Impedance_(x, dt) == MAdd(MScale(FDiv(One, dt), Inertia(x.m)), MAdd(MScale(dt, x.kp), x.kd))
\* right hand side: Z w2 = Rhs + f
Rhs(x, s, dt, u) == VAdd(MV(MScale(FDiv(One, dt), Inertia(x.m)), s.w),
                         VAdd(u, VAdd(MV(x.kp, VSub(x.qd, s.q)), MV(x.kd, x.vd))))
Near1(x, s, k) == x.lim[k] /\ (FLt(FSub(s.q[k], x.mn[k]), x.prox) \/ FLt(FSub(x.mx[k], s.q[k]), x.prox))
\* velocity which leads to the bound
ToBound(x, s, dt, k, b) == FDiv(FSub(IF b = 1 THEN x.mn[k] ELSE x.mx[k], s.q[k]), dt)
\* velocity and force when the dof k is at its lower bound (a[k] = 1), at its upper one (2), free (0)
Solved(x, s, dt, u, a) ==
  LET Z == Impedance_(x, dt)  r == Rhs(x, s, dt, u)
      w == IF a = <<0, 0>> THEN MV(Inv2(Z), r)
           ELSE IF a[1] = 0 THEN LET w2 == ToBound(x, s, dt, 2, a[2]) IN <<FDiv(FSub(r[1], FMul(Z[1][2], w2)), Z[1][1]), w2>>
           ELSE IF a[2] = 0 THEN LET w1 == ToBound(x, s, dt, 1, a[1]) IN <<w1, FDiv(FSub(r[2], FMul(Z[2][1], w1)), Z[2][2])>>
           ELSE <<ToBound(x, s, dt, 1, a[1]), ToBound(x, s, dt, 2, a[2])>>
  IN [a |-> a, w |-> w, f |-> VSub(MV(Z, w), r)]
\* complementarity, up to rounding
Admissible(x, s, dt, c) ==
  \A k \in 1..2 : CASE c.a[k] = 0 -> ~Near1(x, s, k) \/ LET e == FAdd(s.q[k], FMul(dt, c.w[k]))
                                                      IN FLe(FSub(x.mn[k], Eps(13)), e) /\ FLe(e, FAdd(x.mx[k], Eps(13)))
                    [] c.a[k] = 1 -> Near1(x, s, k) /\ FLe(FNeg(Eps(10)), c.f[k])
                    [] OTHER -> Near1(x, s, k) /\ FLe(c.f[k], Eps(10))
Choices == {<<a, b>> : a, b \in 0..2}
Solutions(x, s, dt, u) == {c \in {Solved(x, s, dt, u, a) : a \in Choices} : Admissible(x, s, dt, c)}
Next_(x, s, dt, u) == LET c == CHOOSE c \in Solutions(x, s, dt, u) : TRUE
                      IN [q |-> VAdd(s.q, VScale(dt, c.w)), w |-> c.w, f |-> c.f, on |-> <<Near1(x, s, 1), Near1(x, s, 2)>>]
Energy(x, s) == FMul(Half, FAdd(Dot(s.w, MV(Inertia(x.m), s.w)),
                                LET e == VSub(s.q, x.qd) IN Dot(e, MV(x.kp, e))))
=============================================================================
