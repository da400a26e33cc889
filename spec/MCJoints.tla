------------------------------ MODULE MCJoints ------------------------------
(***************************************************************************)
(* Joint kinematics on a grid of types, positions and velocities: the      *)
(* derivatives of the product of elementary motions agree with the closed  *)
(* forms (columns moved to the last frame, brackets).  The grid is         *)
(* replayed on the implementation.                                         *)
(***************************************************************************)
EXTENDS Jets, TLC, Json, IOUtils
Q == {0, 1, 2}    \* indexes of the values
QVal(k) == CASE k = 0 -> Zero [] k = 1 -> One [] k = 2 -> FDiv(FInt(-5), FInt(2))
V == {0, 1, 2}
VVal(k) == CASE k = 0 -> Zero [] k = 1 -> One [] k = 2 -> FInt(-2)
VARIABLES type, q, v, s
vars == <<type, q, v, s>>
N == NDofOf(type)
Tup(f, n, F(_)) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], F(f[k])) IN g[n]
Init == /\ type \in JointTypes
        /\ IF type = "FreeJoint"
           THEN /\ q \in [1..3 -> Q]           \* pose: Rz Ry Tx
                /\ \E a, b \in V : v = <<a, b, a, b, b, a>>
           ELSE /\ q \in [1..N -> Q]
                /\ v \in [1..N -> V]
        /\ s = "new"
Pos == LET x == Tup(q, Len(q), QVal)
       IN IF type = "FreeJoint" THEN MMul(RotZ(x[1]), MMul(RotY(x[2]), Transl(<<x[3], One, Zero>>))) ELSE x
Vel == Tup(v, Len(v), VVal)
Next == /\ s = "new" /\ s' = "done" /\ UNCHANGED <<type, q, v>>
        /\ PrintT("B " \o ToJson([type |-> type, q |-> q, v |-> v]))
Spec == Init /\ [][Next]_vars
Tol == Eps(14)

RECURSIVE Tail2(_, _, _)
Tail2(ax, x, k) == IF k > Len(ax) THEN I4 ELSE MMul(Elementary(ax[k], x[k]), Tail2(ax, x, k+1))
RECURSIVE Comb(_, _, _)
Comb(cols, x, k) == IF k > Len(cols) THEN Vec0(6) ELSE VAdd(VScale(x[k], cols[k]), Comb(cols, x, k+1))
Laws == s = "done" =>
  LET A == JointJet(type, Pos, Vel)
      J == JacCols(A)  dJ == DJacCols(A)  T == TwistOf(A)
  IN /\ IsRigid(A.h, Tol)
     /\ MNear(A.h, JointPose(type, Pos), Tol)
     /\ VNear(T, Comb(J, Vel, 1), Tol)
     /\ IF type = "FreeJoint"
        THEN \A k \in 1..6 : VNear(J[k], Unit(6, k), Tol) /\ VNear(dJ[k], Vec0(6), Tol)
        ELSE \A k \in 1..N :
               LET S == Tail2(Axes(type), Pos, k+1)
               IN /\ VNear(J[k], MV(Ad(HInv(S)), Unit(6, Axes(type)[k])), Tol)
                  /\ VNear(dJ[k], Bracket(J[k], Comb(J, Vel, k+1)), Tol)
     \* derivative of the inverse motion
     /\ LET Hi == HInv(A.h)  Hit == MNeg(MMul(Hi, MMul(A.t, Hi)))
            iT == Vee(MMul(A.h, Hit))
        IN /\ VNear(iT, VNeg(MV(Ad(A.h), T)), Tol)
           /\ MNear(AdDot(A.h, A.t), MMul(Ad(A.h), Adj(T)), Tol)
           /\ MNear(AdDot(Hi, Hit), MMul(Ad(Hi), Adj(iT)), Tol)
=============================================================================
