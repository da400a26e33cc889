------------------------------ MODULE KinTrace ------------------------------
(***************************************************************************)
(* K01-K04, D01, D02, A01, O04: what worlds report after an update of the  *)
(* models, for a sequence of states.                                       *)
(***************************************************************************)
EXTENDS Tree, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
Prop == IOEnv.PROP
VARIABLES i, l, bp       \* bp: current poses of the frames in their bodies
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(9)
Crash == {"crash"}

\* poses of the frames after an event
AfterBp(b, e) == IF e.op = "move" THEN [b EXCEPT ![e.f] = e.h] ELSE b

AllB(n, P(_)) == \A b \in 1..n : P(b)

K01(c, e) ==
  LET Ok(P) == Len(P) = c.nb /\ \A b \in 1..c.nb : MNear(P[b], BodyPose(c, e.q, b), Tol) /\ IsRigid(P[b], Eps(8))
  IN B("poses of the geometric model", Ok(e.geo)) \cup B("poses of the dynamic model", Ok(e.dyn))
     \cup B("poses after another update", Ok(e.again))
     \cup B("ground", \A k \in 1..Len(e.ground) : e.ground[k] = I4)

K02(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  w == WorldVel(c, e.v)  n == NDof(c)
  IN B("worldwide velocity", VNear(e.gvel, w, Zero))
  \cup B("twists", \A b \in 1..c.nb : VNear(e.twist[b], TwistOf(JT[b]), Tol))
  \cup B("jacobians", \A b \in 1..c.nb : IsMat(e.jac[b], 6, n) /\ MNear(e.jac[b], Jac(JT[b]), Tol))
  \cup B("null columns", LET ord == Order(c)
                             onpath(b) == {PathTo(c, b)[k] : k \in 1..Len(PathTo(c, b))}
                         IN \A b \in 1..c.nb : \A k \in 1..Len(c.links) : k \in onpath(b) \/
                            \A m \in 1..DofOf(c, k) : \A r \in 1..6 : e.jac[b][r][First(c, ord, k) + m] = Zero)
  \cup B("twist is jacobian times velocity", n = 0 \/ \A b \in 1..c.nb : VNear(MV(e.jac[b], e.gvel), e.twist[b], Tol))
  \cup B("ground", e.gtwist = Vec0(6) /\ \A r \in 1..6 : \A k \in 1..n : e.gjac[r][k] = Zero)

K03(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  n == NDof(c)
  IN B("jacobian derivatives", \A b \in 1..c.nb : IsMat(e.djac[b], 6, n) /\ MNear(e.djac[b], DJac(JT[b]), Tol))

K04(c, b, e) ==
     B("result", e.res = e.want)
\cup B("poses in the bodies", e.bpose = b)
\cup B("bodies", e.body = c.fbody)
\cup (IF e.op # "eval" THEN {}
      ELSE LET JT == BodyJets(c, e.q, e.v)  n == NDof(c)
               Of(k) == LET bk == c.fbody[k] IN TimesConst(IF bk = 0 THEN ConstJet(I4, n) ELSE JT[bk], b[k])
           IN B("poses of the frames", \A k \in 1..Len(b) : MNear(e.pose[k], Of(k).h, Tol))
              \cup B("twists of the frames", \A k \in 1..Len(b) : VNear(e.twist[k], TwistOf(Of(k)), Tol))
              \cup B("jacobians of the frames", \A k \in 1..Len(b) : MNear(e.jac[k], Jac(Of(k)), Tol))
              \cup B("jacobian derivatives of the frames", \A k \in 1..Len(b) : MNear(e.djac[k], DJac(Of(k)), Tol)))

D01(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  n == NDof(c)
      Quadr(M, T) == LET F(b) == Dot(T[b], MV(M[b], T[b])) IN Sum(F, c.nb)
  IN B("size", IsMat(e.mass, n, n) /\ IsMat(e.visc, n, n))
  \cup (IF n = 0 \/ ~(IsMat(e.mass, n, n) /\ IsMat(e.visc, n, n)) THEN {} ELSE
       B("mass matrix", MNear(e.mass, MassMatrix(c, JT), Tol))
  \cup B("viscosity matrix", MNear(e.visc, ViscosityMatrix(c, JT), Tol))
  \cup B("symmetry", Symmetric(e.mass, Tol) /\ Symmetric(e.visc, Tol))
  \cup B("positivity", PosDef(MAdd(e.mass, MScale(FMul(Eps(9), FAdd(One, MMax(e.mass))), Id(n)))))
  \* the energy for the actual twists
  \cup B("energy", LET T == [b \in 1..c.nb |-> TwistOf(JT[b])]  w == WorldVel(c, e.v)
                   IN Near(Dot(w, MV(e.mass, w)), Quadr(c.mass, T), Tol) /\ Near(Dot(w, MV(e.visc, w)), Quadr(c.visc, T), Tol)))

D02(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  n == NDof(c)  w == WorldVel(c, e.v)
  IN B("size", IsMat(e.nle, n, n))
     \cup (IF n = 0 \/ ~IsMat(e.nle, n, n) THEN {}
           ELSE B("gyroscopic and centrifugal forces", VNear(MV(e.nle, w), BiasForce(c, JT, w), Tol)))

A01(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  n == NDof(c)
  IN B("weight", VNear(e.force, WeightForce(c, e.g, c.up, JT), Tol))
     \cup B("impedance", e.imp = Mat0(n, n))
     \cup B("force in the world", VNear(e.gforce, WeightForce(c, e.total, c.up, JT), Tol))

O04(c, e) ==
  LET JT == BodyJets(c, e.q, e.v)  w == WorldVel(c, e.v)
      One4(o) == B("center of mass", VNear(o.pos, ComPos(c, JT, o.bodies), Tol))
            \cup (IF ~o.jacobians THEN {}
                  ELSE B("jacobian", MNear(o.jac, ComJac(c, JT, o.bodies), Tol))
                  \cup B("velocity", Len(w) = 0 \/ VNear(MV(o.jac, w), ComVel(c, JT, o.bodies), Tol))
                  \cup B("jacobian derivative", MNear(o.djac, ComDJac(c, JT, o.bodies), Tol)))
            \cup B("copies", o.copies)
  IN UNION {One4(e.obs[k]) : k \in 1..Len(e.obs)}

Bad(c, b, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE CASE Prop = "K01" -> K01(c, e) [] Prop = "K02" -> K02(c, e) [] Prop = "K03" -> K03(c, e)
         [] Prop = "K04" -> K04(c, b, e) [] Prop = "D01" -> D01(c, e) [] Prop = "D02" -> D02(c, e)
         [] Prop = "A01" -> A01(c, e) [] Prop = "O04" -> O04(c, e)
Init == i \in 1..Len(Cases) /\ l = 0 /\ bp = IF Prop = "K04" /\ "fbody" \in DOMAIN Cases[i] THEN Cases[i].fpose ELSE <<>>
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               b == IF Prop = "K04" /\ e.op # "crash" THEN AfterBp(bp, e) ELSE bp
               \* the masses may change
               c == IF "bmass" \in DOMAIN e /\ "nb" \in DOMAIN Cases[i] THEN [Cases[i] EXCEPT !.mass = e.bmass, !.visc = e.bvisc] ELSE Cases[i]
               bad == Bad(c, b, e)
           IN /\ bp' = b
              /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, bp>>
=============================================================================
