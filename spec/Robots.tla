------------------------------- MODULE Robots -------------------------------
(***************************************************************************)
(* What the builders of robots add to a world: a description               *)
(*   bodies  [key, name, mass, parent, h0, jt, jn, q, v]: the body, the    *)
(*           joint which leads to it and the frame of its parent where the *)
(*           joint is; keys are the names, or #k for the k-th body         *)
(*   frames  [name, body, h]                                               *)
(*   shapes  [name, t, body, h, dims]                                      *)
(***************************************************************************)
EXTENDS Mass, TLC
NoName == "<none>"
GroundKey == "<ground>"
Key(k) == "#" \o ToString(k)
Half_(x) == FMul(Half, x)
Up(y) == Transl(<<Zero, y, Zero>>)
BodyRec(key, name, mass, parent, h0, jt, jn, q, v) ==
  [key |-> key, name |-> name, mass |-> mass, parent |-> parent, h0 |-> h0, jt |-> jt, jn |-> jn, q |-> q, v |-> v]
\* mass matrix at the origin of the body, the solid (at its center) being at H
At(M, H) == Transport(M, HInv(H))

\* a segment of the arm: a box along y, twenty times thinner than long... 
ArmHalf(len) == <<FDiv(len, FInt(20)), Half_(len), FDiv(len, FInt(20))>>
ArmSegment(len, m) == At(BoxMass(ArmHalf(len), m), Up(Half_(len)))
SimpleArm(name, len, m, shaped) ==
  LET N(x) == name \o x
      B(k, nm, jn, parent, h0) == BodyRec(N(nm), N(nm), ArmSegment(len[k], m[k]), parent, h0, "RzJoint", N(jn), <<Zero>>, <<Zero>>)
      S(k, nm) == [name |-> NoName, t |-> "Box", body |-> N(nm), h |-> Up(Half_(len[k])), dims |-> ArmHalf(len[k])]
  IN [bodies |-> <<B(1, "Arm", "Shoulder", GroundKey, I4), B(2, "Forearm", "Elbow", N("Arm"), Up(len[1])),
                   B(3, "Hand", "Wrist", N("Forearm"), Up(len[2]))>>,
      frames |-> <<[name |-> N("ElbowBaseFrame"), body |-> N("Arm"), h |-> Up(len[1])],
                   [name |-> N("WristBaseFrame"), body |-> N("Forearm"), h |-> Up(len[2])],
                   [name |-> N("EndEffector"), body |-> N("Hand"), h |-> Up(len[3])]>>,
      shapes |-> IF shaped THEN <<S(1, "Arm"), S(2, "Forearm"), S(3, "Hand")>> ELSE <<>>]

\* a segment of the snake: a cylinder along y, which was made along z
Upright == RotX(FNeg(FDiv(Pi, Two)))
SnakeSegment(len, m) == At(CylinderMass(len, FDiv(len, FInt(5)), m), MMul(Up(Half_(len)), Upright))
Snake(len, m, q, v, fixed) ==
  LET n == Len(len)
      o == IF fixed THEN 0 ELSE 1
      cube == LET a == Half_(len[1]) IN <<a, a, a>>
      Root == BodyRec(Key(1), NoName, BoxMass(cube, m[1]), GroundKey, I4, "FreeJoint", NoName, I4, Vec0(6))
      Seg(k) == BodyRec(Key(k + o), NoName, SnakeSegment(len[k], m[k]),
                        IF k + o = 1 THEN GroundKey ELSE Key(k + o - 1), IF k = 1 THEN I4 ELSE Up(len[k-1]),
                        "RzJoint", NoName, <<q[k]>>, <<v[k]>>)
      f[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(f[k-1], Seg(k))
  IN [bodies |-> (IF fixed THEN <<>> ELSE <<Root>>) \o f[n],
      frames |-> IF n = 0 THEN <<>> ELSE <<[name |-> NoName, body |-> Key(n + o), h |-> Up(len[n])]>>,
      shapes |-> <<>>]

\* a solid, free from the ground
Simple(name, t, dims, m) ==
  LET key == IF name = NoName THEN Key(1) ELSE name
  IN [bodies |-> <<BodyRec(key, name, CASE t = "Box" -> BoxMass(dims, m)
                                       [] t = "Sphere" -> SphereMass(dims[1], m)
                                       [] t = "Cylinder" -> CylinderMass(dims[1], dims[2], m),
                           GroundKey, I4, "FreeJoint", NoName, I4, Vec0(6))>>,
      frames |-> <<>>,
      shapes |-> <<[name |-> NoName, t |-> t, body |-> key, h |-> I4, dims |-> dims]>>]
GroundPlane(up) == [bodies |-> <<>>, frames |-> <<>>,
                    shapes |-> <<[name |-> "Ground shape", t |-> "Plane", body |-> GroundKey, h |-> I4, dims |-> up \o <<Zero>>]>>]

-----------------------------------------------------------------------------
\* The humanoid, from its tables: solids [b, dims, m, h], joints [n, parent, h, child], body shapes [b, dims, h] and contacts [n, b, dims, h]
SolidMass(x) == CASE Len(x.dims) = 3 -> BoxMass(x.dims, x.m)
                  [] Len(x.dims) = 2 -> CylinderMass(x.dims[1], x.dims[2], x.m)
                  [] OTHER -> SphereMass(x.dims[1], x.m)
ShapeType(dims) == CASE Len(dims) = 3 -> "Box" [] Len(dims) = 2 -> "Cylinder" [] Len(dims) = 1 -> "Sphere" [] OTHER -> "Point"
TableMass(solids, b) ==
  LET f[k \in 0..Len(solids)] == IF k = 0 THEN Mat0(6, 6) ELSE IF solids[k].b # b THEN f[k-1] ELSE MAdd(f[k-1], At(SolidMass(solids[k]), solids[k].h))
  IN f[Len(solids)]
ICub(T, fixed, shapes, contacts) ==
  LET BK(b) == IF fixed /\ b = "waist" THEN GroundKey ELSE b
      J(k) == LET j == T.joints[k] IN BodyRec(j.child, j.child, TableMass(T.solids, j.child), BK(j.parent), j.h, "RzJoint", j.n, <<Zero>>, <<Zero>>)
      f[k \in 0..Len(T.joints)] == IF k = 0 THEN <<>> ELSE Append(f[k-1], J(k))
      Root == BodyRec("waist", "waist", TableMass(T.solids, "waist"), GroundKey, I4, "FreeJoint", "root", I4, Vec0(6))
      S(k) == LET s == T.shapes[k] IN [name |-> s.b \o ".body_shape", t |-> ShapeType(s.dims), body |-> BK(s.b), h |-> s.h, dims |-> s.dims]
      C(k) == LET s == T.contacts[k] IN [name |-> s.n, t |-> ShapeType(s.dims), body |-> BK(s.b), h |-> s.h, dims |-> s.dims]
      F(k) == LET s == T.contacts[k] IN [name |-> s.n, body |-> BK(s.b), h |-> s.h]
      s_[k \in 0..Len(T.shapes)] == IF k = 0 THEN <<>> ELSE Append(s_[k-1], S(k))
      c_[k \in 0..Len(T.contacts)] == IF k = 0 THEN <<>> ELSE Append(c_[k-1], C(k))
      f_[k \in 0..Len(T.contacts)] == IF k = 0 THEN <<>> ELSE Append(f_[k-1], F(k))
  IN [bodies |-> (IF fixed THEN <<>> ELSE <<Root>>) \o f[Len(T.joints)],
      frames |-> IF contacts THEN f_[Len(T.contacts)] ELSE <<>>,
      shapes |-> (IF shapes THEN s_[Len(T.shapes)] ELSE <<>>) \o (IF contacts THEN c_[Len(T.contacts)] ELSE <<>>)]

-----------------------------------------------------------------------------
\* position of the bodies of a description when all joints are at zero
RECURSIVE PoseAt(_, _)
IndexOf(D, key) == CHOOSE k \in 1..Len(D.bodies) : D.bodies[k].key = key
PoseAt(D, key) == IF key = GroundKey THEN I4 ELSE LET b == D.bodies[IndexOf(D, key)] IN MMul(PoseAt(D, b.parent), b.h0)
TotalMass(D) == LET F(k) == D.bodies[k].mass[6][6] IN Sum(F, Len(D.bodies))
\* mass and inertia of a body about the origin of the world, in the world frame
WorldMass(M, H) == Transport(M, HInv(H))
\* seen in a mirror of normal n: rotational and linear parts of the mass matrix
Mirror3(n) == [a \in 1..3 |-> [b \in 1..3 |-> IF a # b THEN Zero ELSE IF a = n THEN FInt(-1) ELSE One]]
MirrorMass(M, n) ==
  LET S == Mirror3(n)  A == Assemble(MNeg(S), Z3, Z3, S)   \* angular velocities are axial vectors
  IN MMul(A, MMul(M, A))
=============================================================================
