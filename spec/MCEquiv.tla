------------------------------ MODULE MCEquiv ------------------------------
(***************************************************************************)
(* The rewritings of Equiv.tla keep the poses, the velocities, and the     *)
(* equations of motion (mass matrix, viscosity, forces of Newton and       *)
(* Euler, weight), for every small world and sequence of rewritings.       *)
(***************************************************************************)
EXTENDS Equiv, TLC, Json, IOUtils, Randomization
NB == atoi(IOEnv.NB)
Depth == atoi(IOEnv.DEPTH)
Random == IOEnv.RANDOM = "1"
Types == {"RzRyRxJoint", "TyJoint", "FreeJoint", "FixedJoint", "RxJoint", "RyRxJoint"}
VARIABLES c0, c, cor, hist, s
vars == <<c0, c, cor, hist, s>>
\* displacements
Disp(n) == CASE n = 0 -> I4
             [] n = 1 -> Hom(RotOf(RotZ(One)), <<Half, Zero, FInt(-1)>>)
             [] n = 2 -> Hom(RotOf(MMul(RotX(FInt(2)), RotY(FInt(-1)))), <<Zero, One, Half>>)
QOf(j, m) == FDiv(FInt(3*j - 2*m), FInt(4))
VOf(j, m) == FInt(1 - j + m)
MassNo(b) == Transport(BoxMass(<<One, FDiv(FInt(b), FInt(2)), Half>>, FInt(b)), Hom(RotOf(RotY(FInt(b))), <<Half, FDiv(FInt(b), FInt(-3)), Zero>>))
ViscNo(b) == Diag(<<One, Zero, FInt(b), Zero, Half, One>>)
World(par, ty, fr) ==
  LET L(j) == [parent |-> par[j], child |-> j, type |-> ty[j], h0 |-> Disp((fr + j) % 3), h1 |-> Disp((fr + 2*j + 1) % 3)]
      Q(j) == IF ty[j] = "FreeJoint" THEN Disp(1 + (j % 2)) ELSE LET F(m) == QOf(j, m) IN EqSeq(NDofOf(ty[j]), F)
      V(j) == LET F(m) == VOf(j, m) IN EqSeq(NDofOf(ty[j]), F)
  IN [nb |-> NB, links |-> EqSeq(NB, L), mass |-> EqSeq(NB, MassNo), visc |-> EqSeq(NB, ViscNo), up |-> <<Zero, One, Zero>>, q |-> EqSeq(NB, Q), v |-> EqSeq(NB, V)]
Perms(n) == {p \in [1..n -> 1..n] : {p[j] : j \in 1..n} = 1..n}
\* requests, with the numbers of the displacements
Asked(x) ==
  [op : {"place"}, d : {1, 2}] \cup [op : {"scale"}, d : {1}]
  \cup [op : {"order"}, perm : IF NL(x) <= 4 THEN {p \in Perms(NL(x)) : \E j \in 1..NL(x) : p[j] # j} ELSE {}]
  \cup [op : {"origin"}, b : 1..x.nb, d : {1, 2}]
  \cup UNION {[op : {"split"}, b : {b}, d : {1, 2}, kids : LET ks == KidsOf(x, b) IN IF ks = <<>> THEN {<<>>} ELSE {<<>>, ks, <<ks[1]>>}] : b \in 0..x.nb}
  \cup [op : {"merge", "chain", "flip"}, k : 1..NL(x)]
  \cup [op : {"rename"}, k : 1..NL(x), type : {"RzJoint", "RyJoint", "TxJoint"}]
Numbers(op) ==
  CASE op.op \in {"place", "origin"} -> op @@ [H |-> Disp(op.d)]
    [] op.op = "scale" -> op @@ [a |-> FDiv(FInt(5), FInt(4))]
    [] op.op = "split" -> op @@ [P |-> Disp(op.d), Q |-> Disp((op.d + 1) % 3), a |-> FDiv(One, FInt(4))]
    [] OTHER -> op
Init == \E par \in {p \in [1..NB -> 0..(NB-1)] : \A j \in 1..NB : p[j] < j}, ty \in [1..NB -> Types], fr \in 0..2 :
          /\ c0 = World(par, ty, fr) /\ c = World(par, ty, fr) /\ cor = Same(World(par, ty, fr)) /\ hist = <<>>
          /\ s = [par |-> par, ty |-> ty, fr |-> fr]
Next == /\ Len(hist) < Depth
        /\ \E op \in LET A == {op \in Asked(c) : Applies(c, op)} IN IF Random THEN {RandomElement(A)} ELSE A :
             LET r == Rewrite(c, Numbers(op))
             IN /\ c' = r.c /\ cor' = Then(cor, r.cor) /\ hist' = Append(hist, op)
                /\ IF Random THEN TRUE ELSE PrintT("B " \o ToJson([w |-> s, ops |-> hist']))
        /\ UNCHANGED <<c0, s>>
Spec == Init /\ [][Next]_vars
Emit == (Random /\ Len(hist) = Depth) => PrintT("B " \o ToJson([w |-> s, ops |-> hist]))

Tol == Eps(12)
Pose(JT, b) == IF b = 0 THEN I4 ELSE JT[b].h
SamePoses == hist # <<>> =>
  LET J0 == BodyJets(c0, c0.q, c0.v)  J1 == BodyJets(c, c.q, c.v)
  IN \A x \in 0..c0.nb : LET p == cor.b[x+1]
       IN MNear(Pose(J1, p[1]), MMul(cor.h, MMul(Pose(J0, x), p[2])), Tol)
\* the degrees of freedom of the first world in the other one
SameDynamics == hist # <<>> =>
  LET J0 == BodyJets(c0, c0.q, c0.v)  J1 == BodyJets(c, c.q, c.v)
      n == NDof(c0)  w0 == WorldVel(c0, c0.v)  w1 == WorldVel(c, c.v)
      o0 == Order(c0)  o1 == Order(c)
      Cells == {<<j, m>> : j \in 1..NL(c0), m \in 1..6} \cap {x \in (1..NL(c0)) \X (1..6) : x[2] <= DofOf(c0, x[1])}
      At(x) == First(c0, o0, x[1]) + x[2]
      To(x) == LET r == cor.k[x[1]][x[2]] IN First(c, o1, r[1]) + r[2]
      Sg(x) == FInt(cor.k[x[1]][x[2]][3])
      M0 == MassMatrix(c0, J0)  M1 == MassMatrix(c, J1)
      V0 == ViscosityMatrix(c0, J0)  V1 == ViscosityMatrix(c, J1)
      F0 == BiasForce(c0, J0, w0)  F1 == BiasForce(c, J1, w1)
      G0 == WeightForce(c0, FInt(-10), c0.up, J0)  G1 == WeightForce(c, FInt(-10), c.up, J1)
  IN /\ NDof(c) = n
     /\ n > 0 => \A x \in Cells :
          /\ Near(w1[To(x)], FMul(Sg(x), w0[At(x)]), Tol)
          /\ Near(F1[To(x)], FMul(cor.a, FMul(Sg(x), F0[At(x)])), Tol)
          /\ Near(G1[To(x)], FMul(cor.a, FMul(Sg(x), G0[At(x)])), Tol)
          /\ \A y \in Cells : LET f == FMul(cor.a, FMul(Sg(x), Sg(y)))
               IN /\ Near(M1[To(x)][To(y)], FMul(f, M0[At(x)][At(y)]), Tol)
                  /\ Near(V1[To(x)][To(y)], FMul(f, V0[At(x)][At(y)]), Tol)
=============================================================================
