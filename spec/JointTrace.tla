----------------------------- MODULE JointTrace -----------------------------
(***************************************************************************)
(* J01, J02, J03: joints alone.  The state is the position and velocity of *)
(* a joint; the events are its creation, assignments and integrations.     *)
(***************************************************************************)
EXTENDS Jets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
Prop == IOEnv.PROP
VARIABLES i, l, q, v
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(9)

\* position after an integration
Moved(type, p, w, dt) ==
  CASE type = "FreeJoint" -> MMul(p, Exp(VScale(dt, w)))
    [] type = "FixedJoint" -> p
    [] OTHER -> VAdd(p, VScale(dt, w))
\* the state after the event; positions are re-read from the implementation, so
\* that rounding does not accumulate in the comparisons
AfterQ(c, p, e) == IF e.op \in {"crash"} THEN p ELSE e.q
AfterV(c, w, e) == IF e.op \in {"crash"} THEN w ELSE e.v

SamePos(type, a, b, tol) == CASE type = "FreeJoint" -> MNear(a, b, tol)
                              [] type = "FixedJoint" -> TRUE
                              [] OTHER -> VNear(a, b, tol)
PosOK(type, p) == CASE type = "FreeJoint" -> IsRigid(p, Eps(9))
                    [] type = "FixedJoint" -> TRUE
                    [] OTHER -> IsVec(p, NDofOf(type)) /\ VMax(p) # NaN

J01(type, e) ==
     B("number of dof", e.ndof = NDofOf(type) /\ Len(e.v) = NDofOf(type))
\cup (IF e.op = "new" THEN
          B("initial position", SamePos(type, e.q, e.q0, Zero))
     \cup B("initial velocity", e.v = e.v0)
     \cup B("independent from the arguments", SamePos(type, e.q2, e.q0, Zero) /\ e.v2 = e.v0) ELSE {})
\cup B("pose", MNear(e.pose, JointPose(type, e.q), Tol))
\cup B("inverse pose", MNear(e.ipose, HInv(JointPose(type, e.q)), Tol))
\cup B("pose is independent from the state", e.isolated)

J02(type, e) ==
  LET A == JointJet(type, e.q, e.v)
      T == TwistOf(A)
      Hi == HInv(A.h)
      Hit == MNeg(MMul(Hi, MMul(A.t, Hi)))
      iT == Vee(MMul(A.h, Hit))
  IN   B("twist", VNear(e.twist, T, Tol))
  \cup B("jacobian", MNear(e.jac, Jac(A), Tol))
  \cup B("twist is jacobian times velocity", NDofOf(type) = 0 \/ VNear(MV(e.jac, e.v), e.twist, Tol))
  \cup B("jacobian derivative", MNear(e.djac, DJac(A), Tol))
  \cup B("inverse twist", VNear(e.itwist, iT, Tol))
  \cup B("adjoint", MNear(e.adj, Ad(A.h), Tol))
  \cup B("inverse adjoint", MNear(e.iadj, Ad(Hi), Tol))
  \cup B("adjacency", MNear(e.adjacency, Adj(T), Tol))
  \cup B("inverse adjacency", MNear(e.iadjacency, Adj(iT), Tol))
  \cup B("adjoint derivative", MNear(e.dadj, AdDot(A.h, A.t), Tol))
  \cup B("inverse adjoint derivative", MNear(e.idadj, AdDot(Hi, Hit), Tol))

J03(type, p, e) ==
  IF e.op # "integrate" THEN {}
  ELSE B("velocity", e.v = e.newv)
  \cup B("position", SamePos(type, e.q, Moved(type, p, e.newv, e.dt), Tol))
  \cup B("validity", PosOK(type, e.q))
  \cup B("argument", e.argok)

Bad(type, p, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE CASE Prop = "J01" -> J01(type, e) [] Prop = "J02" -> J02(type, e) [] Prop = "J03" -> J03(type, p, e)
Init == i \in 1..Len(Cases) /\ l = 0 /\ q = <<>> /\ v = <<>>
Next == /\ l < Len(Cases[i].ev)
        /\ LET c == Cases[i]
               e == c.ev[l+1]
               bad == Bad(c.type, q, e)
           IN /\ q' = AfterQ(c, q, e) /\ v' = AfterV(c, v, e)
              /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, q, v>>
=============================================================================
