-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Kinematics and dynamics of a tree of bodies, from first principles.     *)
(*                                                                         *)
(* A tree c has c.nb bodies (0 is the ground) and c.links, a sequence of   *)
(* [parent, child, type, h0, h1] in the order in which they were attached: *)
(* the frame h0 of the parent and the frame h1 of the child are related by *)
(* the joint.  c.mass and c.visc are the matrices of the bodies.           *)
(***************************************************************************)
EXTENDS Jets, Mass

KidsOf(c, b) == LET f[k \in 0..Len(c.links)] ==
                      IF k = 0 THEN <<>> ELSE IF c.links[k].parent = b THEN Append(f[k-1], k) ELSE f[k-1]
                IN f[Len(c.links)]
\* links in depth-first order
RECURSIVE Walk(_, _)
LOCAL Walk(c, todo) == IF todo = <<>> THEN <<>>
                 ELSE <<Head(todo)>> \o Walk(c, KidsOf(c, c.links[Head(todo)].child) \o Tail(todo))
Order(c) == Walk(c, KidsOf(c, 0))
DofOf(c, k) == NDofOf(c.links[k].type)
RECURSIVE FirstFrom(_, _, _)
LOCAL FirstFrom(c, ord, k) == IF ord[1] = k THEN 0 ELSE DofOf(c, ord[1]) + FirstFrom(c, Tail(ord), k)
\* number of degrees of freedom before those of link k
First(c, ord, k) == FirstFrom(c, ord, k)
NDof(c) == LET f[k \in 0..Len(c.links)] == IF k = 0 THEN 0 ELSE f[k-1] + DofOf(c, k) IN f[Len(c.links)]

LOCAL PosIn(seq, x) == CHOOSE k \in 1..Len(seq) : seq[k] = x
LinkTo(c, b) == CHOOSE k \in 1..Len(c.links) : c.links[k].child = b
\* links from the ground to a body
RECURSIVE PathTo(_, _)
PathTo(c, b) == IF b = 0 THEN <<>> ELSE LET k == LinkTo(c, b) IN Append(PathTo(c, c.links[k].parent), k)

\* jets of the bodies at the end of the links, in depth-first order
LOCAL JetSeq(c, ord, n, q, v) ==
  LET f[k \in 0..Len(ord)] ==
        IF k = 0 THEN <<>>
        ELSE LET prev == f[k-1]
                 L == c.links[ord[k]]
                 A == IF L.parent = 0 THEN ConstJet(I4, n) ELSE prev[PosIn(ord, LinkTo(c, L.parent))]
             IN Append(prev, TimesConst(TimesJoint(TimesConst(A, L.h0), L.type, q[ord[k]], v[ord[k]], First(c, ord, ord[k])), HInv(L.h1)))
  IN f[Len(ord)]
\* jets of the bodies 1..nb; q and v are indexed by links
BodyJets(c, q, v) ==
  LET ord == Order(c)
      J == JetSeq(c, ord, NDof(c), q, v)
      f[b \in 0..c.nb] == IF b = 0 THEN <<>> ELSE Append(f[b-1], J[PosIn(ord, LinkTo(c, b))])
  IN f[c.nb]
\* poses alone
BodyPose(c, q, b) ==
  LET p == PathTo(c, b)
      f[k \in 0..Len(p)] == IF k = 0 THEN I4
        ELSE LET L == c.links[p[k]] IN MMul(f[k-1], MMul(L.h0, MMul(JointPose(L.type, q[p[k]]), HInv(L.h1))))
  IN f[Len(p)]

\* the worldwide velocity
WorldVel(c, v) == LET ord == Order(c)
                      f[k \in 0..Len(ord)] == IF k = 0 THEN <<>> ELSE f[k-1] \o v[ord[k]]
                  IN f[Len(ord)]

-----------------------------------------------------------------------------
(* Dynamics.  JT is the sequence of the jets of the bodies.                *)

Quad(c, M, JT, n) ==      \* sum of J^T M J
  LET Term(b) == LET J == Jac(JT[b]) IN MMul(MT(J), MMul(M[b], J))
  IN IF n = 0 THEN <<>> ELSE MSumOver(Term, c.nb, Mat0(n, n))
MassMatrix(c, JT) == Quad(c, c.mass, JT, NDof(c))
ViscosityMatrix(c, JT) == Quad(c, c.visc, JT, NDof(c))

\* generalized forces which keep the velocities constant (Newton, Euler)
BiasForce(c, JT, vel) ==
  LET n == Len(vel)
      Term(b) == LET J == Jac(JT[b])  T == TwistOf(JT[b])  A == MV(DJac(JT[b]), vel)
                     W == VSub(MV(c.mass[b], A), MV(MT(Adj(T)), MV(c.mass[b], T)))
                 IN MV(MT(J), W)
  IN IF n = 0 THEN <<>> ELSE VSumOver(Term, c.nb, Vec0(n))

\* energies
Kinetic(c, JT) == LET Term(b) == LET T == TwistOf(JT[b]) IN FMul(Half, Dot(T, MV(c.mass[b], T))) IN Sum(Term, c.nb)
\* m * position of the center of mass, m * its derivatives: from H and M only
FirstMoment(M) == <<M[3][5], M[1][6], M[2][4]>>      \* m * com
MomentOf(H, M) == VAdd(MV(RotOf(H), FirstMoment(M)), VScale(MassOf(M), PosOf(H)))
Potential(c, g, up, JT) == LET Term(b) == FNeg(FMul(g, Dot(up, MomentOf(JT[b].h, c.mass[b])))) IN Sum(Term, c.nb)
\* generalized force of the weight: minus the gradient of the potential energy
WeightForce(c, g, up, JT) ==
  LET n == NDof(c)
      \* d[k] is the derivative of the pose, of the form [R' p'; 0 0]
      Comp(k) == LET Term(b) == FMul(g, Dot(up, MomentOf(JT[b].d[k], c.mass[b]))) IN Sum(Term, c.nb)
      f[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(f[k-1], Comp(k))
  IN f[n]

\* center of mass of a sequence of bodies: position, jacobian and its derivative
TotalMass(c, bs) == LET T(k) == MassOf(c.mass[bs[k]]) IN Sum(T, Len(bs))
LOCAL MeanOf(c, bs, X(_)) == LET T(k) == MomentOf(X(bs[k]), c.mass[bs[k]])
                       IN VScale(FDiv(One, TotalMass(c, bs)), VSumOver(T, Len(bs), Vec0(3)))
ComPos(c, JT, bs) == LET X(b) == JT[b].h IN MeanOf(c, bs, X)
ComVel(c, JT, bs) == LET X(b) == JT[b].t IN MeanOf(c, bs, X)
ComJac(c, JT, bs) == LET n == NDof(c)
                         col[k \in 0..n] == IF k = 0 THEN <<>> ELSE LET X(b) == JT[b].d[k] IN Append(col[k-1], MeanOf(c, bs, X))
                     IN IF n = 0 THEN Mat0(3, 0) ELSE MT(col[n])
ComDJac(c, JT, bs) == LET n == NDof(c)
                          col[k \in 0..n] == IF k = 0 THEN <<>> ELSE LET X(b) == JT[b].dt[k] IN Append(col[k-1], MeanOf(c, bs, X))
                      IN IF n = 0 THEN Mat0(3, 0) ELSE MT(col[n])
=============================================================================
