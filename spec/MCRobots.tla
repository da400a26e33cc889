------------------------------ MODULE MCRobots ------------------------------
(***************************************************************************)
(* Buildings, one after the other, in one world: the descriptions are      *)
(* trees, have the mass, the size and the symmetry which were asked for,   *)
(* and what was built does not depend on what is built later.              *)
(***************************************************************************)
EXTENDS Human, TLC, Json, IOUtils, FiniteSets
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES world,    \* the descriptions so far
          hist      \* operations
R(a, b) == FDiv(FInt(a), FInt(b))
Heights == {1741, 800}
\* lengths which are scaled
Scales == {{}, {"yhumerusL"}, {"xsternoclavR", "ysternoclavR", "zsternoclavR"}, {"yfemurL", "yfemurR"}, {"xfootL", "xheelL"}, {"yforearmR", "zshoulderL", "yhead"}}
Scaled(L, S) == [n \in LengthNames |-> IF n \in S THEN FMul(R(3, 4), L[n]) ELSE L[n]]
Catalog ==
     {[op |-> "human", h |-> h, scale |-> S, mass |-> m] : h \in Heights, S \in Scales, m \in {73}}
\cup {[op |-> "arm", v |-> v, shaped |-> s] : v \in 1..2, s \in BOOLEAN}
\cup {[op |-> "snake", n |-> n, v |-> v, fixed |-> f] : n \in 1..3, v \in 1..2, f \in BOOLEAN}
\cup {[op |-> "simple", t |-> t, v |-> v] : t \in {"Box", "Sphere", "Cylinder"}, v \in 1..2}
\* parameters of the variants
Len3(v) == IF v = 1 THEN <<R(1, 2), R(2, 5), R(1, 5)>> ELSE <<One, R(1, 3), Two>>
Mass3(v) == IF v = 1 THEN <<One, R(4, 5), R(1, 5)>> ELSE <<R(1, 10), Two, FInt(5)>>
Dims(t, v) == CASE t = "Box" -> Len3(v) [] t = "Sphere" -> <<R(v, 3)>> [] OTHER -> <<R(v, 2), R(2, 3)>>
\* objects of the k-th building have names of their own
Prefix(k) == ToString(k) \o " "
Describe(o, k) ==
  CASE o.op = "human" -> Human(Scaled(Lengths(R(o.h, 1000)), o.scale), FInt(o.mass), Prefix(k))
    [] o.op = "arm" -> SimpleArm(Prefix(k), Len3(o.v), Mass3(o.v), o.shaped)
    [] o.op = "snake" -> Snake(SubSeq(Len3(o.v), 1, o.n), SubSeq(Mass3(o.v), 1, o.n), [m \in 1..o.n |-> R(m, 4)], [m \in 1..o.n |-> FInt(-m)], o.fixed)
    [] o.op = "simple" -> Simple(Prefix(k) \o o.t, o.t, Dims(o.t, o.v), Two)
Init == world = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Catalog : /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # o.op \/ o.op = "human")
                              /\ world' = Append(world, Describe(o, Len(hist) + 1))
                              /\ hist' = Append(hist, o)
                              /\ PrintT("B " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<world, hist>>
View == hist
-----------------------------------------------------------------------------
Last == world[Len(world)]
LastOp == hist[Len(hist)]
Tol == Eps(12)
Keys(D) == {D.bodies[k].key : k \in 1..Len(D.bodies)}
RECURSIVE Depth(_, _, _)
Depth(D, key, n) == IF key = GroundKey THEN TRUE ELSE n > 0 /\ key \in Keys(D) /\ Depth(D, D.bodies[IndexOf(D, key)].parent, n - 1)
Trees == hist = <<>> \/
  LET D == Last IN /\ Cardinality(Keys(D)) = Len(D.bodies)
                   /\ \A k \in 1..Len(D.bodies) : Depth(D, D.bodies[k].key, Len(D.bodies))
                   /\ \A k \in 1..Len(D.frames) : D.frames[k].body \in Keys(D)
                   /\ \A k \in 1..Len(D.shapes) : D.shapes[k].body \in Keys(D)
Masses == hist = <<>> \/
  LET D == Last  o == LastOp
      want == CASE o.op = "human" -> FInt(o.mass) [] o.op = "arm" -> VSum(Mass3(o.v))
                [] o.op = "snake" -> LET m == SubSeq(Mass3(o.v), 1, o.n) IN FAdd(VSum(m), IF o.fixed THEN Zero ELSE m[1])
                [] OTHER -> Two
  IN /\ Near(TotalMass(D), want, Tol)
     /\ \A k \in 1..Len(D.bodies) : D.bodies[k].mass = Mat0(6, 6) \/ IsMass(D.bodies[k].mass)
\* place of a frame when all joints are at zero
Place(D, f) == LET k == CHOOSE k \in 1..Len(D.frames) : D.frames[k].name = f
               IN PosOf(MMul(PoseAt(D, D.frames[k].body), D.frames[k].h))
P == Prefix(Len(hist))
Sizes == hist = <<>> \/
  LET D == Last  o == LastOp IN
  CASE o.op = "human" ->
         LET h == HeightOf(Scaled(Lengths(R(o.h, 1000)), o.scale)) IN
         /\ Near(Place(D, P \o "Vertex")[2], h, Tol)
         /\ \A s \in {"Right foot ", "Left foot "}, t \in {"toe tip", "heel", "phalange 5", "phalange 1"} : Near(Place(D, P \o s \o t)[2], Zero, Tol)
         /\ o.scale = {} => Near(h, R(o.h, 1000), Tol)
    [] o.op = "arm" -> VNear(Place(D, P \o "EndEffector"), <<Zero, VSum(Len3(o.v)), Zero>>, Tol)
                       \* a bar about its end: m l^2 / 3, but for its thickness
                       /\ \A k \in 1..3 : LET M == D.bodies[k].mass  m == Mass3(o.v)[k]  x == Len3(o.v)[k]
                                          IN /\ VNear(ComOf(M), <<Zero, FMul(Half, x), Zero>>, Tol)
                                             /\ Near(M[3][3], FMul(FMul(m, Sq(x)), FAdd(R(1, 3), R(1, 1200))), Tol)
    [] o.op = "snake" -> LET F == D.frames[1] IN
                         /\ VNear(PosOf(MMul(PoseAt(D, F.body), F.h)), <<Zero, VSum(SubSeq(Len3(o.v), 1, o.n)), Zero>>, Tol)
                         /\ \A k \in 1..o.n : LET M == D.bodies[k + (IF o.fixed THEN 0 ELSE 1)].mass  m == Mass3(o.v)[k]  x == Len3(o.v)[k]
                                              IN Near(M[3][3], FMul(FMul(m, Sq(x)), FAdd(R(1, 3), R(1, 100))), Tol) /\ Near(M[2][2], FMul(FMul(m, Sq(x)), R(1, 50)), Tol)
    [] OTHER -> TRUE
\* the mirror of a human is the human whose sides are exchanged
Other(n) == CASE n = "R" -> "L" [] OTHER -> "R"
HumanBodies(s) == {x \o s : x \in {"Thigh", "Shank", "Foot", "Scapula", "Arm", "Forearm", "Hand"}}
Pairs == {<<x \o "R", x \o "L">> : x \in {"Thigh", "Shank", "Foot", "Scapula", "Arm", "Forearm", "Hand"}}
         \cup {<<x \o "L", x \o "R">> : x \in {"Thigh", "Shank", "Foot", "Scapula", "Arm", "Forearm", "Hand"}} \cup {<<x, x>> : x \in {"LPT", "UPT", "Head"}}
Symmetry == hist = <<>> \/ LastOp.op # "human" \/
  LET o == LastOp
      D == Last
      S == Human(Swap(Scaled(Lengths(R(o.h, 1000)), o.scale)), FInt(o.mass), P)
      W(X, b) == WorldMass(X.bodies[IndexOf(X, P \o b)].mass, PoseAt(X, P \o b))
  IN \A p \in Pairs : MNear(W(S, p[2]), MirrorMass(W(D, p[1]), 3), Tol)
Dofs == hist = <<>> \/ LastOp.op # "human" \/
  /\ Len(Last.bodies) = 17
  /\ LET F(k) == FInt(Len(Last.bodies[k].v)) IN Sum(F, 17) = FInt(42)
=============================================================================
