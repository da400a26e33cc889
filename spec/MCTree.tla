------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* Trees of up to three bodies: every shape of tree, with joints of all    *)
(* kinds, various attachments, positions and velocities.  The jets agree   *)
(* with the recursion over the tree; the forces of Newton and Euler with   *)
(* the equations of Lagrange; the weight with the gradient of the          *)
(* potential energy.                                                       *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils
Types == IF IOEnv.TYPES = "all" THEN JointTypes ELSE {"RzJoint", "RyRxJoint", "TyJoint", "FreeJoint", "FixedJoint"}
VARIABLES par, ty, fr, st, s
vars == <<par, ty, fr, st, s>>
NB == atoi(IOEnv.NB)
\* frames of the links; states
Frames(k) == CASE k = 0 -> <<I4, I4>>
               [] k = 1 -> <<Hom(RotOf(RotZ(One)), <<Half, Zero, FInt(-1)>>), I4>>
               [] k = 2 -> <<Hom(RotOf(RotX(FInt(2))), <<Zero, One, Half>>), Hom(RotOf(RotY(FInt(-1))), <<Zero, Half, One>>)>>
QOf(j, m, x) == CASE x = 0 -> Zero
                  [] x = 1 -> FDiv(FInt(3*j + m), FInt(4))
                  [] x = 2 -> FInt(m - 2*j)
VOf(j, m, x) == CASE x = 0 -> FInt(m) [] x = 1 -> FInt(1 - j - m) [] x = 2 -> FDiv(FInt(2*m - j), FInt(2))
Seqn(n, F(_)) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], F(k)) IN g[n]
Q(j, x) == IF ty[j] = "FreeJoint"
           THEN Hom(RotOf(MMul(RotZ(QOf(j, 1, x)), RotX(QOf(j, 2, x)))), <<QOf(j, 3, x), One, QOf(j, 1, x)>>)
           ELSE LET F(m) == QOf(j, m, x) IN Seqn(NDofOf(ty[j]), F)
V(j, x) == LET F(m) == VOf(j, m, x) IN Seqn(NDofOf(ty[j]), F)
\* masses: off-centered solids, and a massless body
MassNo(b) == IF b = 2 /\ fr = 1 THEN Mat0(6, 6)
             ELSE Transport(BoxMass(<<One, FDiv(FInt(b), FInt(2)), Half>>, FInt(b)),
                            Hom(RotOf(RotY(FInt(b))), <<Half, FDiv(FInt(b), FInt(-3)), Zero>>))
ViscNo(b) == Diag(<<One, Zero, FInt(b), Zero, Half, One>>)
Cfg == LET L(j) == [parent |-> par[j], child |-> j, type |-> ty[j], h0 |-> Frames((fr + j) % 3)[1], h1 |-> Frames((fr + j) % 3)[2]]
       IN [nb |-> NB, links |-> Seqn(NB, L), mass |-> Seqn(NB, MassNo), visc |-> Seqn(NB, ViscNo)]
Qs == LET F(j) == Q(j, st) IN Seqn(NB, F)
Vs == LET F(j) == V(j, st) IN Seqn(NB, F)

Init == /\ par \in {p \in [1..NB -> 0..(NB-1)] : \A j \in 1..NB : p[j] < j}
        /\ ty \in [1..NB -> Types]
        /\ fr \in 0..2 /\ st \in 0..2
        /\ s = "new"
Next == /\ s = "new" /\ s' = "done" /\ UNCHANGED <<par, ty, fr, st>>
        /\ PrintT("B " \o ToJson([par |-> par, ty |-> ty, fr |-> fr, st |-> st]))
Spec == Init /\ [][Next]_vars

Tol == Eps(12)
\* body twist of the joint motion
JTwist(c, k, q, v) == TwistOf(JointJet(c.links[k].type, q[k], v[k]))
Kinematics == s = "done" =>
  LET c == Cfg  q == Qs  v == Vs  JT == BodyJets(c, q, v)  w == WorldVel(c, v)  ord == Order(c)
  IN /\ Len(w) = NDof(c) /\ Len(ord) = NB
     /\ \A b \in 1..NB :
          LET L == c.links[LinkTo(c, b)]  p == L.parent
              Hp == IF p = 0 THEN I4 ELSE JT[p].h
              Tp == IF p = 0 THEN Vec0(6) ELSE TwistOf(JT[p])
              J == JacCols(JT[b])
              onpath == {PathTo(c, b)[k] : k \in 1..Len(PathTo(c, b))}
          IN /\ IsRigid(JT[b].h, Tol)
             /\ MNear(JT[b].h, BodyPose(c, q, b), Tol)
             /\ VNear(TwistOf(JT[b]), VAdd(MoveTwist(MMul(HInv(JT[b].h), Hp), Tp), MoveTwist(L.h1, JTwist(c, LinkTo(c, b), q, v))), Tol)
             /\ NDof(c) > 0 => VNear(MV(Jac(JT[b]), w), TwistOf(JT[b]), Tol)
             /\ \A k \in 1..NB \ onpath : \A m \in 1..DofOf(c, k) :
                    J[First(c, ord, k) + m] = Vec0(6) /\ DJacCols(JT[b])[First(c, ord, k) + m] = Vec0(6)

\* derivatives by finite differences, with a step of 2^-15
H2 == FDiv(One, FInt(32768))
Bump(q, k, m, d) == [q EXCEPT ![k] = [@ EXCEPT ![m] = FAdd(@, d)]]
QuadOf(c, q, v, w) == LET JT == BodyJets(c, q, v) IN Kinetic(c, JT)
Energy(c, JT) == Potential(c, FInt(-10), <<Zero, One, Zero>>, JT)
Dynamics == s = "done" =>
  LET c == Cfg  q == Qs  v == Vs  n == NDof(c)  JT == BodyJets(c, q, v)  w == WorldVel(c, v)  ord == Order(c)
      M == MassMatrix(c, JT)  Bf == BiasForce(c, JT, w)
      MdTerm(b) == LET J == Jac(JT[b]) dJ == DJac(JT[b]) X == MMul(MT(dJ), MMul(c.mass[b], J)) IN MAdd(X, MT(X))
      Md == MSumOver(MdTerm, NB, Mat0(n, n))
      G == WeightForce(c, FInt(-10), <<Zero, One, Zero>>, JT)
  IN n > 0 =>
     /\ Symmetric(M, Tol) /\ PosDef(MAdd(M, MScale(Eps(9), Id(n))))
     /\ Near(FMul(Half, Dot(w, MV(M, w))), Kinetic(c, JT), Tol)
     /\ Near(Dot(w, Bf), FMul(Half, Dot(w, MV(Md, w))), Tol)
     /\ VNear(MV(ComJac(c, JT, <<1>>), w), ComVel(c, JT, <<1>>), Tol)
     /\ \A k \in {j \in 1..NB : ty[j] # "FreeJoint"} : \A m \in 1..DofOf(c, k) :
          LET d == First(c, ord, k) + m
              Ep == Bump(q, k, m, H2)  Em == Bump(q, k, m, FNeg(H2))
              dT == FDiv(FSub(QuadOf(c, Ep, v, w), QuadOf(c, Em, v, w)), FMul(Two, H2))
              dU == FDiv(FSub(Energy(c, BodyJets(c, Ep, v)), Energy(c, BodyJets(c, Em, v))), FMul(Two, H2))
          IN /\ Near(Bf[d], FSub(MV(Md, w)[d], dT), Eps(6))
             /\ Near(G[d], FNeg(dU), Eps(6))
=============================================================================
