-------------------------------- MODULE Jets --------------------------------
(***************************************************************************)
(* Motions and their derivatives, from the definitions.                    *)
(*                                                                         *)
(* A jet is a displacement H together with its time derivative t along the *)
(* current motion, its derivatives d[k] along each generalized velocity    *)
(* taken alone, and the time derivatives dt[k] of d[k].  The products of   *)
(* jets follow Leibniz' rule, so that the twist of a body is the matrix    *)
(* H^-1 t, the column k of its jacobian is H^-1 d[k], and the column k of  *)
(* the jacobian derivative is the time derivative of the latter.           *)
(***************************************************************************)
EXTENDS Geom

\* elementary motions of the joints, in order: axis 1..3 rotation about
\* x, y, z; 4..6 translation along x, y, z
Axes(type) ==
  CASE type = "RzRyRxJoint" -> <<3, 2, 1>>
    [] type = "RzRyJoint" -> <<3, 2>>
    [] type = "RzRxJoint" -> <<3, 1>>
    [] type = "RyRxJoint" -> <<2, 1>>
    [] type = "RzJoint" -> <<3>>
    [] type = "RyJoint" -> <<2>>
    [] type = "RxJoint" -> <<1>>
    [] type = "TxTyTzJoint" -> <<4, 5, 6>>
    [] type = "TxJoint" -> <<4>>
    [] type = "TyJoint" -> <<5>>
    [] type = "TzJoint" -> <<6>>
    [] type = "FixedJoint" -> <<>>
JointTypes == {"RzRyRxJoint", "RzRyJoint", "RzRxJoint", "RyRxJoint", "RzJoint", "RyJoint", "RxJoint",
               "TxTyTzJoint", "TxJoint", "TyJoint", "TzJoint", "FixedJoint", "FreeJoint"}
NDofOf(type) == IF type = "FreeJoint" THEN 6 ELSE Len(Axes(type))

Elementary(axis, q) ==
  CASE axis = 1 -> RotX(q) [] axis = 2 -> RotY(q) [] axis = 3 -> RotZ(q)
    [] axis = 4 -> Transl(<<q, Zero, Zero>>) [] axis = 5 -> Transl(<<Zero, q, Zero>>)
    [] axis = 6 -> Transl(<<Zero, Zero, q>>)
AxisHat(axis) == HatT(Unit(6, axis))

RECURSIVE PoseFrom(_, _, _)
LOCAL PoseFrom(ax, q, k) == IF k > Len(ax) THEN I4
                      ELSE MMul(Elementary(ax[k], q[k]), PoseFrom(ax, q, k+1))
\* relative pose of a joint at the position q (a displacement for a free joint)
JointPose(type, q) == IF type = "FreeJoint" THEN q ELSE PoseFrom(Axes(type), q, 1)

-----------------------------------------------------------------------------
RECURSIVE Build(_, _, _)
\* << F(1), ..., F(n) >> evaluated once (TLC keeps functions unevaluated)
LOCAL Build(n, k, f) == IF k > n THEN <<>> ELSE <<f[k]>> \o Build(n, k+1, f)

ConstJet(H, n) == [h |-> H, t |-> O4, d |-> Build(n, 1, [k \in 1..n |-> O4]), dt |-> Build(n, 1, [k \in 1..n |-> O4])]

\* jet times a constant displacement
TimesConst(A, C) ==
  LET n == Len(A.d)
  IN [h |-> MMul(A.h, C), t |-> MMul(A.t, C),
      d |-> Build(n, 1, [k \in 1..n |-> MMul(A.d[k], C)]),
      dt |-> Build(n, 1, [k \in 1..n |-> MMul(A.dt[k], C)])]

\* jet times the elementary motion E which depends on the dof m alone: E, its
\* derivative E1 and second derivative E2, and the velocity v of the dof
TimesElementary(A, E, E1, E2, m, v) ==
  LET n == Len(A.d)
      Et == MScale(v, E1)
      E1t == MScale(v, E2)
  IN [h |-> MMul(A.h, E),
      t |-> MAdd(MMul(A.t, E), MMul(A.h, Et)),
      d |-> Build(n, 1, [k \in 1..n |->
              IF k = m THEN MAdd(MMul(A.d[k], E), MMul(A.h, E1)) ELSE MMul(A.d[k], E)]),
      dt |-> Build(n, 1, [k \in 1..n |->
              LET base == MAdd(MMul(A.dt[k], E), MMul(A.d[k], Et))
              IN IF k = m THEN MAdd(base, MAdd(MMul(A.t, E1), MMul(A.h, E1t))) ELSE base])]

\* jet times the displacement H of a free joint, whose dof m+1..m+6 are the
\* components of its body twist nu
TimesFree(A, H, m, nu) ==
  LET n == Len(A.d)
      N == HatT(nu)
      Ht == MMul(H, N)
      In(k) == k > m /\ k <= m + 6
      Hk(k) == MMul(H, AxisHat(k-m))
      Hkt(k) == MMul(Ht, AxisHat(k-m))
  IN [h |-> MMul(A.h, H),
      t |-> MAdd(MMul(A.t, H), MMul(A.h, Ht)),
      d |-> Build(n, 1, [k \in 1..n |->
              IF In(k) THEN MAdd(MMul(A.d[k], H), MMul(A.h, Hk(k))) ELSE MMul(A.d[k], H)]),
      dt |-> Build(n, 1, [k \in 1..n |->
              LET base == MAdd(MMul(A.dt[k], H), MMul(A.d[k], Ht))
              IN IF In(k) THEN MAdd(base, MAdd(MMul(A.t, Hk(k)), MMul(A.h, Hkt(k)))) ELSE base])]

RECURSIVE TimesAxes(_, _, _, _, _, _)
LOCAL TimesAxes(A, ax, q, v, m, k) ==
  IF k > Len(ax) THEN A
  ELSE LET E == Elementary(ax[k], q[k])
           E1 == MMul(E, AxisHat(ax[k]))
           E2 == MMul(E1, AxisHat(ax[k]))
       IN TimesAxes(TimesElementary(A, E, E1, E2, m + k, v[k]), ax, q, v, m, k+1)

\* jet times the motion of a joint whose first dof is m+1
TimesJoint(A, type, q, v, m) ==
  IF type = "FreeJoint" THEN TimesFree(A, q, m, v) ELSE TimesAxes(A, Axes(type), q, v, m, 1)

-----------------------------------------------------------------------------
(* Velocities                                                              *)

TwistOf(A) == Vee(MMul(HInv(A.h), A.t))
\* the jacobian as the sequence of its columns
JacCols(A) == LET Hi == HInv(A.h)  n == Len(A.d)
              IN Build(n, 1, [k \in 1..n |-> Vee(MMul(Hi, A.d[k]))])
DJacCols(A) == LET Hi == HInv(A.h)  n == Len(A.d)  W == MMul(Hi, A.t)
               IN Build(n, 1, [k \in 1..n |->
                    Vee(MSub(MMul(Hi, A.dt[k]), MMul(W, MMul(Hi, A.d[k]))))])
\* matrices 6 x n
Jac(A)  == IF Len(A.d) = 0 THEN Mat0(6, 0) ELSE MT(JacCols(A))
DJac(A) == IF Len(A.d) = 0 THEN Mat0(6, 0) ELSE MT(DJacCols(A))

\* the jet of a joint alone
JointJet(type, q, v) == TimesJoint(ConstJet(I4, NDofOf(type)), type, q, v, 0)
=============================================================================
