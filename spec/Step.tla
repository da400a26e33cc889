-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* One step of the time-stepping scheme: controllers, constraints and the  *)
(* discretised equations of motion, as relations between the state at the  *)
(* beginning of the step, the forces and the state at its end.             *)
(*                                                                         *)
(* c is a world (see Tree) with c.up, c.ctl, the sequence of controllers,  *)
(* c.cons, the sequence of constraints; JT are the jets of its bodies in   *)
(* the state (q, v) of the beginning, w is the worldwide velocity.         *)
(***************************************************************************)
EXTENDS Tree

\* 0 before the beginning of a sequence of numbers
LOCAL Tuple(n, f) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], f[k]) IN g[n]

-----------------------------------------------------------------------------
(* Degrees of freedom                                                      *)

\* worldwide indices of the dofs of a sequence of links, in its order
DofMap(c, ks) == LET ord == Order(c)
                     f[i \in 0..Len(ks)] == IF i = 0 THEN <<>>
                       ELSE f[i-1] \o [m \in 1..DofOf(c, ks[i]) |-> First(c, ord, ks[i]) + m]
                 IN f[Len(ks)]
Concat(x, ks) == LET f[i \in 0..Len(ks)] == IF i = 0 THEN <<>> ELSE f[i-1] \o x[ks[i]] IN f[Len(ks)]
LOCAL IndexIn(map, d) == IF \E i \in 1..Len(map) : map[i] = d THEN CHOOSE i \in 1..Len(map) : map[i] = d ELSE 0
\* vector (matrix) on the dofs map[1], map[2]... of the world, null elsewhere
Spread(x, map, n) == Tuple(n, [d \in 1..n |-> LET i == IndexIn(map, d) IN IF i = 0 THEN Zero ELSE x[i]])
SpreadM(X, map, n) == Tuple(n, [d \in 1..n |-> LET i == IndexIn(map, d) IN IF i = 0 THEN Vec0(n) ELSE Spread(X[i], map, n)])

-----------------------------------------------------------------------------
(* Controllers: force and impedance                                        *)

PDForce(ctl, p) == VAdd(MV(ctl.kp, VSub(ctl.qd, p)), MV(ctl.kd, ctl.vd))
PDImpedance(ctl, dt) == MNeg(MAdd(MScale(dt, ctl.kp), ctl.kd))

CtlForce(c, k, e, JT, n) ==
  LET x == c.ctl[k]
  IN CASE x.t = "weight" -> WeightForce(c, x.g, c.up, JT)
       [] x.t = "pd" -> Spread(PDForce(x, Concat(e.q, x.joints)), DofMap(c, x.joints), n)
       [] x.t = "custom" -> e.cf[k]
CtlImpedance(c, k, e, n) ==
  LET x == c.ctl[k]
  IN CASE x.t = "weight" -> Mat0(n, n)
       [] x.t = "pd" -> SpreadM(PDImpedance(x, e.dt), DofMap(c, x.joints), n)
       [] x.t = "custom" -> e.cz[k]
CtlForces(c, e, JT, n) == LET F(k) == CtlForce(c, k, e, JT, n) IN VSumOver(F, Len(c.ctl), Vec0(n))
CtlImpedances(c, e, n) == LET F(k) == CtlImpedance(c, k, e, n) IN MSumOver(F, Len(c.ctl), Mat0(n, n))

\* impedance of the world; N is the matrix of the nonlinear effects
Impedance(c, e, JT, N, n) ==
  MSub(MAdd(MAdd(MScale(FDiv(One, e.dt), MassMatrix(c, JT)), ViscosityMatrix(c, JT)), N), CtlImpedances(c, e, n))

-----------------------------------------------------------------------------
(* Relative motion of two frames of the world.  A frame is << b, H >>: the *)
(* body (0 for the ground) and the constant displacement from it.          *)

FrameJet(JT, f, n) == TimesConst(IF f.b = 0 THEN ConstJet(I4, n) ELSE JT[f.b], f.h)
FramePose(JT, f) == IF f.b = 0 THEN f.h ELSE MMul(JT[f.b].h, f.h)
\* twist, seen in A, of B relative to A when dof k moves alone with a unit velocity
RelColumn(A, B, k) == LET Ai == HInv(A.h)
                          H01 == MMul(Ai, B.h)
                          D == MSub(MMul(Ai, B.d[k]), MMul(MMul(Ai, A.d[k]), H01))
                      IN Vee(MMul(D, HInv(H01)))
RelColumns(JT, f0, f1, n) == LET A == FrameJet(JT, f0, n)  C == FrameJet(JT, f1, n)
                             IN Tuple(n, [k \in 1..n |-> RelColumn(A, C, k)])
RelPose(JT, f0, f1) == MMul(HInv(FramePose(JT, f0)), FramePose(JT, f1))

-----------------------------------------------------------------------------
(* Constraints: the matrix which maps worldwide velocities to constraint   *)
(* velocities.                                                             *)

LimitRows(c, k, n) == LET map == DofMap(c, <<k>>) IN Tuple(Len(map), [i \in 1..Len(map) |-> Unit(n, map[i])])
\* rows r1..r2 of the relative twist of two frames
RelRows(JT, f0, f1, n, rows) == LET C == RelColumns(JT, f0, f1, n)
                                IN Tuple(Len(rows), [i \in 1..Len(rows) |-> Tuple(n, [k \in 1..n |-> C[k][rows[i]]])])

-----------------------------------------------------------------------------
(* Laws                                                                    *)

\* The limits of one dof over a step: p its position at the beginning, w its
\* velocity at the end, f its force: 0 <= p+ - min _|_ f >= 0 at the lower one,
\* 0 <= max - p+ _|_ -f >= 0 at the upper one
LimitLaw(p, w, f, dt, mn, mx, tol, ftol) ==
  LET e == FAdd(p, FMul(dt, w))
      AtMin == FLe(FAbs(FSub(e, mn)), tol)
      AtMax == FLe(FAbs(FSub(e, mx)), tol)
  IN /\ FLe(FSub(mn, tol), e) /\ FLe(e, FAdd(mx, tol))
     /\ \/ FLe(FAbs(f), ftol)
        \/ FLt(Zero, f) /\ AtMin
        \/ FLt(f, Zero) /\ AtMax
LimitActive(p, mn, mx, prox) == \E i \in 1..Len(p) : FLt(FSub(p[i], mn[i]), prox[i]) \/ FLt(FSub(mx[i], p[i]), prox[i])
\* the same up to rounding: surely active, surely not active
LimitActiveFor(p, mn, mx, prox, tol) == \E i \in 1..Len(p) : FLt(FAdd(FSub(p[i], mn[i]), tol), prox[i]) \/ FLt(FAdd(FSub(mx[i], p[i]), tol), prox[i])
LimitInactiveFor(p, mn, mx, prox, tol) == \A i \in 1..Len(p) : FLt(prox[i], FSub(FSub(p[i], mn[i]), tol)) /\ FLt(prox[i], FSub(FSub(mx[i], p[i]), tol))

\* The constrained directions are independent: Y is the block of the admittance, which
\* may have rows which are null (directions in which there is no motion at all).
RegularBlock(Y, loose, eps) ==
  LET n == Len(Y)
      top == MMax(Y)
      S == MScale(FDiv(One, FInt(2)), MAdd(Y, MT(Y)))
      Free(a) == a \in loose /\ FLe(VMax(S[a]), FMul(eps, top))
      D == Tuple(n, [a \in 1..n |-> Tuple(n, [b \in 1..n |-> IF Free(a) \/ Free(b) THEN (IF a = b THEN top ELSE Zero)
                                                      ELSE IF a = b THEN FSub(S[a][a], FMul(eps, top)) ELSE S[a][b]])])
  IN top # Zero /\ PosDef(D)
AdmittanceOf(J, Y) == MMul(J, MMul(Y, MT(J)))

\* A contact over a step: d the distance at its beginning, u the contact velocity
\* (spin, tangent velocity, normal velocity) at its end, f the contact force, u0 the
\* velocity at its end without f
Signorini(d, u, u0, f, dt, tol, ftol) ==
  LET e == FAdd(d, FMul(dt, u[4]))
      e0 == FAdd(d, FMul(dt, u0[4]))
  IN /\ FLe(FNeg(ftol), f[4])
     /\ FLt(tol, e0) => FLe(VMax(f), ftol)
     /\ FLe(FNeg(tol), e0) \/ (FLe(FNeg(tol), e) /\ (FLe(FAbs(e), tol) \/ FLe(f[4], ftol)))
Tangent(x) == <<x[1], x[2], x[3]>>
\* elliptic friction with unit coefficients of normalisation
Coulomb(u, f, mu, tol, ftol) ==
  LET ft == Norm(Tangent(f))
      lim == FMul(mu, f[4])
  IN /\ FLe(ft, FAdd(lim, ftol))
     /\ \* sticks, or friction is at its maximum and opposed to the motion
        \/ FLe(VMax(Tangent(u)), tol)
        \/ /\ FLe(FAbs(FSub(ft, lim)), ftol)
           /\ VMax(VAdd(VScale(ft, Tangent(u)), VScale(Norm(Tangent(u)), Tangent(f)))) # NaN
           /\ FLe(VMax(VAdd(VScale(ft, Tangent(u)), VScale(Norm(Tangent(u)), Tangent(f)))),
                  FAdd(FMul(ftol, FAdd(One, Norm(Tangent(u)))), FMul(tol, FAdd(One, ft))))

-----------------------------------------------------------------------------
(* End of the step                                                         *)

\* terms of the discretised equations of motion, whose sum is null: N is the matrix
\* of the nonlinear effects, w2 the velocity at the end, gc the generalized force of
\* the constraints
Terms(c, e, JT, N, w, w2, gc, n) ==
  << VScale(FDiv(One, e.dt), MV(MassMatrix(c, JT), VSub(w2, w))),
     MV(MAdd(ViscosityMatrix(c, JT), N), w2),
     VNeg(CtlForces(c, e, JT, n)),
     VNeg(MV(CtlImpedances(c, e, n), w2)),
     VNeg(gc) >>
\* position of a joint after a step of constant velocity
Moved(type, p, u, dt) ==
  CASE type = "FreeJoint" -> MMul(p, Exp(VScale(dt, u)))
    [] type = "FixedJoint" -> p
    [] OTHER -> VAdd(p, VScale(dt, u))
SamePos(type, a, b, tol) == CASE type = "FreeJoint" -> MNear(a, b, tol)
                              [] type = "FixedJoint" -> TRUE
                              [] OTHER -> VNear(a, b, tol)
=============================================================================
