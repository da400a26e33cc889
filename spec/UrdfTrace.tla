------------------------------ MODULE UrdfTrace ------------------------------
(***************************************************************************)
(* U01: the robot which is parsed is the one which is described, and so is *)
(* the one which is written again; its root, its chains (Urdf).            *)
(* U02: the bodies, joints, masses, shapes, limits of the world in which   *)
(* it is loaded are those of the description, wherever the joints are.     *)
(***************************************************************************)
EXTENDS Urdf, Mass, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l, m
B(name, ok) == IF ok THEN {} ELSE {name}
LOCAL Map(s, F(_)) == LET f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE Append(f[k-1], F(s[k])) IN f[Len(s)]
LOCAL Nul == "0x0.0p+0"
LOCAL Or(o, x) == IF o = <<>> THEN x ELSE o[1]
LOCAL NoI == <<Nul, Nul, Nul, Nul, Nul, Nul>>
\* what is parsed of what is written
Inertial(w) == [mass |-> Or(w.mass, Nul), I |-> Or(w.I, NoI), origin |-> w.origin]
Parsed(doc) == LET L(w) == [name |-> w.name, visual |-> w.visual, collision |-> w.collision, inertial |-> Map(w.inertial, Inertial)]
               IN [doc EXCEPT !.links = Map(doc.links, L)]
Same(a, b) == B("name of the robot", a.name = b.name)
              \cup B("links", Len(a.links) = Len(b.links) /\ \A k \in 1..Len(a.links) : a.links[k].name = b.links[k].name)
              \cup (IF Len(a.links) # Len(b.links) THEN {} ELSE
                    B("what is drawn of a link", \A k \in 1..Len(a.links) : a.links[k].visual = b.links[k].visual)
                    \cup B("collision shape of a link", \A k \in 1..Len(a.links) : a.links[k].collision = b.links[k].collision)
                    \cup B("inertia of a link", \A k \in 1..Len(a.links) : a.links[k].inertial = b.links[k].inertial))
              \cup B("joints", Len(a.joints) = Len(b.joints) /\ \A k \in 1..Len(a.joints) : a.joints[k].name = b.joints[k].name)
              \cup (IF Len(a.joints) # Len(b.joints) THEN {} ELSE
                    LET F(nm, G(_)) == B(nm \o " of a joint", \A k \in 1..Len(a.joints) : G(a.joints[k]) = G(b.joints[k]))
                        Type(j) == j.type  Ends(j) == <<j.parent, j.child>>  Axs(j) == j.axis  Orig(j) == j.origin  Lim(j) == j.limits
                        Dyn(j) == j.dynamics  Saf(j) == j.safety  Cal(j) == j.calibration  Mim(j) == j.mimic
                    IN F("type", Type) \cup F("links", Ends) \cup F("axis", Axs) \cup F("origin", Orig) \cup F("limits", Lim) \cup F("dynamics", Dyn)
                       \cup F("safety", Saf) \cup F("calibration", Cal) \cup F("mimic", Mim))
              \cup B("materials", a.materials = b.materials)
Rooted(D, e) == IF Known(D) THEN B("the root", IF Cardinality(Roots(D)) = 1 THEN e.res = "ok" /\ e.root = Root(D) ELSE e.res = "refused") ELSE {}
Chained(D, e) == LET c == Chain(D, e.up, e.low)
                 IN B("the chain between links", IF c = <<>> THEN e.res = "refused" ELSE e.res = "ok" /\ e.got = Kept(D, c, e.joints, e.links, e.fixed))

\* ---------------------------------------------------------------- geometry
Origin(o) == IF o = <<>> THEN I4
             ELSE LET R == IF o[1].rpy = <<>> THEN I4 ELSE LET a == o[1].rpy[1] IN MMul(RotZ(a[3]), MMul(RotY(a[2]), RotX(a[1])))
                  IN Hom(RotOf(R), IF o[1].xyz = <<>> THEN Vec0(3) ELSE o[1].xyz[1])
LOCAL Axis(j) == LET a == IF j.axis = <<>> THEN <<One, Zero, Zero>> ELSE j.axis[1]
                     n == Norm(a)
                 IN [k \in 1..3 |-> FDiv(a[k], n)]
Turn(a, q) == LET s == SinCos(q)  K == Hat(a)
              IN MAdd(I3, MAdd(MScale(s[1], K), MScale(FSub(One, s[2]), MMul(K, K))))
Motion(j, q) == CASE j.type = "revolute" -> Hom(Turn(Axis(j), q[1]), Vec0(3))
                  [] j.type = "prismatic" -> Transl(VScale(q[1], Axis(j)))
                  [] j.type = "floating" -> q
                  [] j.type = "fixed" -> I4
Supported == {"revolute", "prismatic", "floating", "fixed"}
NDofs(j) == CASE j.type = "fixed" -> 0 [] j.type = "floating" -> 6 [] OTHER -> 1
Loadable(D) == Valid(D) /\ \A k \in 1..Len(D.joints) : D.joints[k].type \in Supported
Named(R, n) == R.prefix \o n \o R.suffix
LOCAL QOf(qs, n) == LET S == {k \in 1..Len(qs) : qs[k].name = n} IN qs[CHOOSE k \in S : TRUE].q
\* poses of the links of the robot R, whose joints are at qs (sequence of [name, q]); <<>>: they are where they have been loaded
RECURSIVE LinkPose(_, _, _)
LinkPose(R, qs, n) ==
  IF n = Root(R.D) THEN (IF R.fixed \/ qs = <<>> THEN R.h ELSE MMul(R.h, QOf(qs, Named(R, R.root))))
  ELSE LET j == JointTo(R.D, n)
           H == MMul(LinkPose(R, qs, j.parent), Origin(j.origin))
       IN IF j.type = "fixed" \/ qs = <<>> THEN H ELSE MMul(H, Motion(j, QOf(qs, Named(R, j.name))))
\* masses, whose moments are at least 1e-6 for the sake of the simulation
MassOfLink(n) == IF n.inertial = <<>> THEN Mat0(6, 6)
                 ELSE LET x == n.inertial[1]  I == x.I  Low(v) == FMax(Eps(6), v)
                          M == <<<<Low(I[1]), I[2], I[3], Zero, Zero, Zero>>, <<I[2], Low(I[4]), I[5], Zero, Zero, Zero>>, <<I[3], I[5], Low(I[6]), Zero, Zero, Zero>>,
                                 <<Zero, Zero, Zero, Low(x.mass), Zero, Zero>>, <<Zero, Zero, Zero, Zero, Low(x.mass), Zero>>, <<Zero, Zero, Zero, Zero, Zero, Low(x.mass)>>>>
                      IN Transport(M, HInv(Origin(x.origin)))
LOCAL Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})
LOCAL NamesIn(s) == {s[k].name : k \in 1..Len(s)}
LOCAL Get(s, n) == s[CHOOSE k \in 1..Len(s) : s[k].name = n]
Placed(R, qs, poses) == \A k \in 1..Len(R.D.links) : LET n == R.D.links[k].name IN MNear(Get(poses, Named(R, n)).pose, LinkPose(R, qs, n), Eps(9))
LimitsOf(R) == {k \in 1..Len(R.D.joints) : LET j == R.D.joints[k] IN R.save /\ j.type \in {"revolute", "prismatic"} /\ j.lower # <<>> /\ j.upper # <<>>}
ShapesOf(R) == {k \in 1..Len(R.D.links) : LET s == R.D.links[k].collision IN s # <<>> /\ s[1].geometry.t # "Mesh"}
JointsOf(R, a) ==
  /\ \A k \in 1..Len(R.D.joints) :
       LET j == R.D.joints[k]
       IN /\ Named(R, j.name) \in NamesIn(a.joints)
          /\ Get(a.joints, Named(R, j.name)) = [name |-> Named(R, j.name), ndof |-> NDofs(j), parent |-> Named(R, j.parent), child |-> Named(R, j.child)]
  /\ Named(R, R.root) \in NamesIn(a.joints)
  /\ LET g == Get(a.joints, Named(R, R.root)) IN g.ndof = (IF R.fixed THEN 0 ELSE 6) /\ g.child = Named(R, Root(R.D)) /\ g.parent = "ground"
\* the world a after the robots Rs
LoadedWorld(Rs, b, a) ==
  LET RS == {Rs[k] : k \in 1..Len(Rs)}
      Total(F(_)) == LET f[k \in 0..Len(Rs)] == IF k = 0 THEN 0 ELSE f[k-1] + F(Rs[k]) IN f[Len(Rs)]
      NL(R) == Len(R.D.links)
      NC(R) == Cardinality(LimitsOf(R))
      NS(R) == Cardinality(ShapesOf(R))
  IN B("what was in the world before", a.base = b.base)
     \cup B("the links are bodies", Len(a.bodies) = Total(NL) /\ \A R \in RS : \A n \in UNames(R.D) : Named(R, n) \in NamesIn(a.bodies))
     \cup B("the joints", Len(a.joints) = Total(NL) /\ \A R \in RS : JointsOf(R, a))
     \cup (IF Len(a.bodies) # Total(NL) \/ \E R \in RS : \E n \in UNames(R.D) : Named(R, n) \notin NamesIn(a.bodies) THEN {} ELSE
           B("poses of the links", \A R \in RS : Placed(R, <<>>, a.bodies))
           \cup B("masses of the links", \A R \in RS : \A k \in 1..Len(R.D.links) : LET n == R.D.links[k] IN MNear(Get(a.bodies, Named(R, n.name)).mass, MassOfLink(n), Eps(9))))
     \cup B("collision shapes", /\ Len(a.shapes) = Len(b.shapes) + Total(NS)
                                /\ \A R \in RS : \A k \in ShapesOf(R) :
                                     LET n == R.D.links[k]  s == n.collision[1]
                                         Is(x) == x.t = s.geometry.t /\ x.body = Named(R, n.name) /\ VNear(x.dims, s.geometry.dims, Eps(12)) /\ MNear(x.h, Origin(s.origin), Eps(9))
                                     IN Count(a.shapes, Is) = 1)
     \cup B("limits of the joints", a.nconst = Total(NC))
Load(c, e, Rs) == LET R == c.robots[e.robot]
                  IN IF ~Loadable(R.D) THEN B("an invalid robot is refused", e.res = "refused")
                     ELSE IF e.res # "ok" THEN {"a valid robot is refused"}
                     ELSE LoadedWorld(Append(Rs, R), e.before, e.after)
Moved(Rs, e) == B("poses of the links", \A k \in 1..Len(Rs) : Placed(Rs[k], <<[name |-> "", q |-> <<>>]>> \o e.q, e.poses))
Limited(R, e) == LET j == R.D.joints[CHOOSE k \in 1..Len(R.D.joints) : R.D.joints[k].name = e.joint]
                     is == \E k \in LimitsOf(R) : R.D.joints[k].name = e.joint
                     out == FLt(e.x, j.lower[1]) \/ FLt(j.upper[1], e.x)
                     near == FLt(FAbs(FSub(e.x, j.lower[1])), FDiv(One, FInt(50))) \/ FLt(FAbs(FSub(e.x, j.upper[1])), FDiv(One, FInt(50)))
                 IN IF ~is THEN B("a joint without limits is limited", e.active = 0)
                    ELSE IF out THEN B("limits of a joint", e.active = 1) ELSE IF near THEN {} ELSE B("a joint is limited within its limits", e.active = 0)
Dicts(R, e) ==
  LET J == R.D.joints
      Tell(s, P(_), F(_)) == {s[k] : k \in 1..Len(s)} = {F(J[k]) : k \in {k \in 1..Len(J) : P(J[k])}} /\ Len(s) = Cardinality({k \in 1..Len(J) : P(J[k])})
      Both(j) == j.lower # <<>> /\ j.upper # <<>>
      L(j) == [name |-> Named(R, j.name), lower |-> j.lower[1], upper |-> j.upper[1]]
      Has(j) == j.limited
      Ef(j) == [name |-> Named(R, j.name), value |-> j.effort[1]]
      Ve(j) == [name |-> Named(R, j.name), value |-> j.velocity[1]]
  IN B("joint limits", Tell(e.limits, Both, L)) \cup B("effort limits", Tell(e.effort, Has, Ef)) \cup B("velocity limits", Tell(e.velocity, Has, Ve))
LOCAL Ones == <<One, One, One>>
ToldShapes(R, e) ==
  LET Of(n) == IF e.what = "visual" THEN n.visual ELSE n.collision
      ks == {k \in 1..Len(R.D.links) : Of(R.D.links[k]) # <<>>}
      Is(g, n) == LET s == Of(n)[1]
                  IN /\ g.frame = Named(R, n.name) /\ g.t = s.geometry.t /\ MNear(g.h, Origin(s.origin), Eps(9))
                     /\ g.t = "Mesh" => g.file = R.path \o s.geometry.file /\ VNear(g.scale, Or(s.geometry.scale, Ones), Eps(12))
  IN B(e.what \o " shapes", Len(e.got) = Cardinality(ks) /\ \A k \in ks : \E j \in 1..Len(e.got) : Is(e.got[j], R.D.links[k]))
Bad(c, e) ==
  CASE e.op = "crash" -> {"exception: " \o e.res}
    [] e.op = "parsed" -> Same(e.got, Parsed(e.doc))
    [] e.op = "again" -> LET b == Same(e.got, e.doc) IN {"written again: " \o x : x \in b}
    [] e.op = "told" -> B("names in the text of the robot", e.missing = <<>>)
    [] e.op = "root" -> Rooted(c.robots[1].D, e)
    [] e.op = "chain" -> Chained(c.robots[1].D, e)
    [] e.op = "load" -> Load(c, e, m)
    [] e.op = "move" -> Moved(m, e)
    [] e.op = "limit" -> Limited(c.robots[e.robot], e)
    [] e.op = "dicts" -> Dicts(c.robots[e.robot], e)
    [] e.op = "shapes" -> ToldShapes(c.robots[e.robot], e)
Init == i \in 1..Len(Cases) /\ l = 0 /\ m = <<>>
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               bad == Bad(Cases[i], e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
              /\ m' = IF e.op = "load" /\ bad = {} THEN Append(m, Cases[i].robots[e.robot]) ELSE m
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, m>>
=============================================================================
