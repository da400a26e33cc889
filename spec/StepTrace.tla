----------------------------- MODULE StepTrace -----------------------------
(***************************************************************************)
(* A02, A03, T01, C01-C06: steps of worlds with controllers, shapes and    *)
(* constraints, recorded from the implementation.                          *)
(***************************************************************************)
EXTENDS Step, Shapes, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
Prop == IOEnv.PROP
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(8)

\* largest of the terms which are compared
RECURSIVE Scale(_)
Scale(x) == IF x = <<>> THEN One ELSE FAdd(VMax(Head(x)), Scale(Tail(x)))
\* a null vector, up to rounding of terms of the given size
NullFor(r, scale, tol) == FLe(VMax(r), FMul(tol, scale))
\* the frame k of a contact
FrameOf(x, k, b) == [b |-> x.bodies[k], h |-> b]

\* force of the constraints: those which are enabled and active
Acting(c, e) == {k \in 1..Len(c.cons) : e.cons[k].on /\ e.cons[k].act}
ConsForce(c, e, n) == LET F(k) == IF k \in Acting(c, e) THEN MV(MT(e.cons[k].jac), e.cons[k].f) ELSE Vec0(n)
                      IN VSumOver(F, Len(c.cons), Vec0(n))

-----------------------------------------------------------------------------
A02(c, e) ==
  LET n == NDof(c)
      One2(k) == LET x == c.ctl[k]
                 IN IF x.t # "pd" THEN {}
                    ELSE LET map == DofMap(c, x.joints)
                         IN B("force", VNear(e.direct[k].f, Spread(PDForce(x, Concat(e.q, x.joints)), map, n), Tol))
                            \cup B("impedance", MNear(e.direct[k].z, SpreadM(PDImpedance(x, e.dt), map, n), Tol))
                            \* with the velocity of the end of the step
                            \cup B("implicit gains",
                                   LET w == [m \in 1..Len(map) |-> e.w2[map[m]]]
                                       q1 == VAdd(Concat(e.q, x.joints), VScale(e.dt, w))
                                       f == VAdd(e.direct[k].f, MV(e.direct[k].z, e.w2))
                                       g == VAdd(MV(x.kp, VSub(x.qd, q1)), MV(x.kd, VSub(x.vd, w)))
                                       scale == FAdd(One, FAdd(VMax(e.direct[k].f), FMul(MMax(e.direct[k].z), VMax(e.w2))))
                                   IN FLe(VMax(VSub(f, Spread(g, map, n))), FMul(Eps(6), scale)))
  IN UNION {One2(k) : k \in 1..Len(c.ctl)}
     \cup B("force in the world", VNear(e.gf1, CtlForces(c, e, BodyJets(c, e.q, e.v), n), Tol))

A03(c, e) ==
  LET n == NDof(c)
      JT == BodyJets(c, e.q, e.v)
      F == CtlForces(c, e, JT, n)
      Z == Impedance(c, e, JT, e.nle, n)
  IN B("sum of the forces", NullFor(VSub(e.gf1, F), FAdd(One, VMax(F)), Tol))
     \cup B("forces given", \A k \in 1..Len(c.ctl) : VNear(e.direct[k].f, CtlForce(c, k, e, JT, n), Tol))
     \cup B("admittance", FLe(MMax(MSub(MMul(e.Y, Z), Id(n))), FMul(Eps(9), FAdd(One, FMul(FInt(n), FMul(MMax(e.Y), MMax(Z)))))))

T01(c, e) ==
  LET n == NDof(c)
      JT == BodyJets(c, e.q, e.v)
      T == Terms(c, e, JT, e.nle, e.w, e.w2, ConsForce(c, e, n), n)
      R == VAdd(VAdd(T[1], T[2]), VAdd(VAdd(T[3], T[4]), T[5]))
      Fs(k) == VMax(e.cons[k].f)
  IN B("equations of motion", NullFor(R, FAdd(Scale(T), FMul(Eps(9), Sum(Fs, Len(c.cons)))), Eps(7)))
     \cup B("velocity before", VNear(e.w, WorldVel(c, e.v), Zero))
     \cup B("velocity after", e.w2 = WorldVel(c, e.v2))
     \cup B("positions", \A k \in 1..Len(c.links) : SamePos(c.links[k].type, e.q2[k], Moved(c.links[k].type, e.q[k], e.v2[k], e.dt), Eps(9)))
     \cup B("time", Near(e.t2, FAdd(e.t1, e.dt), Eps(12)))

-----------------------------------------------------------------------------
C01(c, e) ==
  LET n == NDof(c)
      gc == ConsForce(c, e, n)
      \* the constraints and the impedances alone
      Size(k) == VMax(e.cons[k].f)
      Sc == FAdd(One, FAdd(VMax(e.gf1), Sum(Size, Len(c.cons))))
      Pr(k) == LET x == e.cons[k]  J == c.cons[k].J
               IN IF c.cons[k].t # "probe" THEN {}
                  ELSE B("force of the user's constraint", k \in Acting(c, e) => VNear(x.f, c.cons[k].force, Zero))
                  \cup B("not solved when disabled or inactive", (k \in Acting(c, e)) = (x.n > 0))
                  \cup (IF k \notin Acting(c, e) THEN {}
                        ELSE B("jacobian", x.jac = J)
                        \cup B("durations", x.dts)
                        \cup B("block of the admittance", MNear(x.adm, MMul(J, MMul(e.Y, MT(J))), Eps(8)))
                        \cup B("velocity", ~e.conv \/ FLe(VMax(VSub(x.last, MV(J, e.w2))),
                                                         FMul(IF e.tight THEN Eps(7) ELSE Eps(2), FAdd(One, FMul(FInt(n), FMul(MMax(J), FAdd(VMax(e.w2), FMul(FMul(FInt(n), MMax(e.Y)), Sc)))))))))
  IN B("force in the world", NullFor(VSub(e.gf2, VAdd(e.gf1, gc)), Sc, Tol))
     \cup B("equations of motion with these forces",
            NullFor(VSub(e.w2, MV(e.Y, VAdd(MV(MScale(FDiv(One, e.dt), MassMatrix(c, BodyJets(c, e.q, e.v))), e.w), VAdd(e.gf1, gc)))),
                    FAdd(One, FMul(MMax(e.Y), Sc)), Eps(6)))
     \cup UNION {Pr(k) : k \in 1..Len(c.cons)}

-----------------------------------------------------------------------------
\* the laws hold once the iterations have converged: they go on until then
Ended(c, e, kind) == B("iterations go on until they converge", ~e.early \/ \A k \in Acting(c, e) : c.cons[k].t # kind)

C02(c, e) ==
  LET n == NDof(c)
      One2(k) ==
        LET x == c.cons[k]  y == e.cons[k]
        IN IF x.t # "limits" THEN {}
           ELSE LET type == c.links[x.link].type
                    p == e.q[x.link]  w == e.v2[x.link]  d == Len(p)
                    tol == FMul(IF e.tight THEN Eps(8) ELSE FMul(Eps(2), e.dt), FAdd(FAdd(One, VMax(p)), FMul(e.dt, VMax(w))))
                IN IF ~y.on THEN {}
                   ELSE B("active", LimitActiveFor(p, x.min, x.max, x.prox, Eps(11)) => y.act)
                   \cup B("inactive", LimitInactiveFor(p, x.min, x.max, x.prox, Eps(11)) => ~y.act)
                   \cup (IF ~y.act \/ ~e.conv \/ ~RegularBlock(AdmittanceOf(LimitRows(c, x.link, n), e.Y), {}, Eps(6)) THEN {}
                         ELSE B("one force per dof", IsVec(y.f, d))
                         \cup B("limits", \A m \in 1..d : LimitLaw(p[m], w[m], y.f[m], e.dt, x.min[m], x.max[m], tol,
                                                                  FMul(Eps(9), FAdd(One, VMax(y.f)))))
                         \cup B("limits at the end", \A m \in 1..d : FLe(FSub(x.min[m], tol), e.q2[x.link][m]) /\ FLe(e.q2[x.link][m], FAdd(x.max[m], tol)))
                         \cup B("generalized force", VNear(y.gf, Spread(y.f, DofMap(c, <<x.link>>), n), Zero)))
  IN UNION {One2(k) : k \in 1..Len(c.cons)} \cup Ended(c, e, "limits")

C03(c, e) ==
  LET n == NDof(c)
      JT == BodyJets(c, e.q, e.v)
      One2(k) ==
        LET x == c.cons[k]  y == e.cons[k]
        IN IF x.t # "ball" \/ ~y.on THEN {}
           ELSE LET J == RelRows(JT, x.f0, x.f1, n, <<4, 5, 6>>)
                    regular == RegularBlock(AdmittanceOf(J, e.Y), {}, Eps(5))
                    p == PosOf(RelPose(JT, x.f0, x.f1))
                    vel == MV(J, e.w2)
                    tol == FMul(IF e.tight THEN Eps(8) ELSE FMul(Eps(2), e.dt), FAdd(One, FAdd(VMax(p), FMul(e.dt, VMax(e.w2)))))
                    p2 == PosOf(MMul(HInv(IF x.f0.b = 0 THEN x.f0.h ELSE MMul(BodyPose(c, e.q2, x.f0.b), x.f0.h)),
                                     IF x.f1.b = 0 THEN x.f1.h ELSE MMul(BodyPose(c, e.q2, x.f1.b), x.f1.h)))
                    ang == FMul(e.dt, FMul(FInt(2*n), VMax(e.w2)))
                IN B("always active", y.act)
                \cup B("jacobian", MNear(y.jac, J, Tol))
                \cup B("generalized force", NullFor(VSub(y.gf, MV(MT(J), y.f)), FMul(FInt(3), FMul(FAdd(One, MMax(J)), FAdd(One, VMax(y.f)))), Tol))
                \cup B("centers together", ~e.conv \/ ~regular \/ FLe(VMax(VAdd(p, VScale(e.dt, vel))), tol))
                \* the rotations during the step have effects of the first order on the gap and
                \* of the second order on the lengths
                \cup B("centers together at the end", ~e.conv \/ ~regular \/ FLt(One, ang) \/
                       FLe(VMax(p2), FAdd(FMul(FInt(10), tol), FAdd(FMul(FMul(FInt(4), ang), VMax(p)), FMul(FInt(50), FMul(ang, ang))))))
  IN UNION {One2(k) : k \in 1..Len(c.cons)} \cup Ended(c, e, "ball")

-----------------------------------------------------------------------------
\* contacts: d, the velocities at the end, with and without the force of the contact
ContactOf(c, e, k, JT, n) ==
  LET x == c.cons[k]  y == e.cons[k]
      f0 == FrameOf(x, 1, y.fr[1])  f1 == FrameOf(x, 2, y.fr[2])
      J == RelRows(JT, f0, f1, n, <<3, 4, 5, 6>>)
      u == MV(J, e.w2)
      Yc == AdmittanceOf(J, e.Y)
  IN [J |-> J, d |-> RelPose(JT, f0, f1)[3][4], u |-> u, regular |-> RegularBlock(Yc, 1..3, Eps(5)),
      u0 |-> VSub(u, MV(Yc, y.f)), now |-> MV(J, e.w)[4]]
VelTol(c, e, r) == FMul(IF e.tight THEN Eps(7) ELSE Eps(2), FAdd(FAdd(One, VMax(r.u)), FAdd(VMax(r.u0), FDiv(FAbs(r.d), e.dt))))

C04(c, e) ==
  LET n == NDof(c)  JT == BodyJets(c, e.q, e.v)
      One2(k) ==
        IF c.cons[k].t # "contact" \/ ~e.cons[k].on THEN {}
        ELSE LET r == ContactOf(c, e, k, JT, n)
                 y == e.cons[k]
                 vt == VelTol(c, e, r)
             IN B("closing contacts are taken into account",
                  y.act \/ ~FLt(FAdd(r.d, FMul(e.dt, r.now)), FSub(c.cons[k].prox, Eps(9))))
                \cup (IF ~y.act \/ ~e.conv \/ ~r.regular THEN {}
                      ELSE B("normal force and gap", Signorini(r.d, r.u, r.u0, y.f, e.dt, FMul(e.dt, vt), FMul(Eps(7), FAdd(One, VMax(y.f))))))
  IN UNION {One2(k) : k \in 1..Len(c.cons)} \cup Ended(c, e, "contact")

C05(c, e) ==
  LET n == NDof(c)  JT == BodyJets(c, e.q, e.v)
      One2(k) ==
        IF c.cons[k].t # "contact" \/ ~e.cons[k].on \/ ~e.cons[k].act THEN {}
        ELSE LET r == ContactOf(c, e, k, JT, n)
                 y == e.cons[k]
                 vt == VelTol(c, e, r)
                 ft == FMul(IF e.tight THEN Eps(6) ELSE Eps(2), FAdd(One, VMax(y.f)))
                 lim == FMul(c.cons[k].mu, y.f[4])
             IN B("friction is bounded", ~r.regular \/ FLe(Norm(Tangent(y.f)), FAdd(lim, ft)))
                \cup (IF ~e.conv \/ ~r.regular THEN {} ELSE
                     \* no law of friction without contact
                     B("friction", FLe(VMax(y.f), FMul(Eps(9), One)) \/ Coulomb(r.u, y.f, c.cons[k].mu, vt, ft))
                \cup B("no energy", FLe(Dot(Tangent(r.u), Tangent(y.f)), FMul(FAdd(vt, FMul(ft, VMax(r.u))), FAdd(One, VMax(y.f))))))
  IN UNION {One2(k) : k \in 1..Len(c.cons)} \cup Ended(c, e, "contact")

C06(c, e) ==
  LET n == NDof(c)  JT == BodyJets(c, e.q, e.v)
      ShapeAt(s) == s @@ [h |-> FramePose(JT, s.frame)]
      One2(k) ==
        IF c.cons[k].t # "contact" \/ ~e.cons[k].on THEN {}
        ELSE LET x == c.cons[k]  y == e.cons[k]
                 s0 == c.shapes[x.s[1]]  s1 == c.shapes[x.s[2]]
                 sw == Swapped(s0.t, s1.t)
                 a == IF sw THEN s1 ELSE s0
                 b == IF sw THEN s0 ELSE s1
                 A == ShapeAt(a)  D == ShapeAt(b)
                 r == ContactOf(c, e, k, JT, n)
                 H0 == FramePose(JT, FrameOf(x, 1, y.fr[1]))
                 H1 == FramePose(JT, FrameOf(x, 2, y.fr[2]))
                 next == FAdd(r.d, FMul(e.dt, r.now))
             IN B("bodies of the frames", x.bodies = <<a.frame.b, b.frame.b>>)
                \cup {"frames: " \o key : key \in BadWitness(A, D, r.d, H0, H1, Eps(7))}
                \cup B("active", FLt(next, FSub(x.prox, Eps(9))) => y.act)
                \cup B("inactive", FLt(FAdd(x.prox, Eps(9)), next) => ~y.act)
                \cup B("jacobian", MNear(y.jac, r.J, Tol))
                \cup B("generalized force", NullFor(VSub(y.gf, MV(MT(r.J), y.f)), FMul(FInt(4), FAdd(One, FMul(MMax(r.J), VMax(y.f)))), Tol))
  IN UNION {One2(k) : k \in 1..Len(c.cons)}

-----------------------------------------------------------------------------
Bad(c, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE CASE Prop = "A02" -> A02(c, e) [] Prop = "A03" -> A03(c, e) [] Prop = "T01" -> T01(c, e)
         [] Prop = "C01" -> C01(c, e) [] Prop = "C02" -> C02(c, e) [] Prop = "C03" -> C03(c, e)
         [] Prop = "C04" -> C04(c, e) [] Prop = "C05" -> C05(c, e) [] Prop = "C06" -> C06(c, e)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i], Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
