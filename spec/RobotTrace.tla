----------------------------- MODULE RobotTrace -----------------------------
(* R01, R02: what the builders added to worlds. *)
EXTENDS Human, TLC, Json, IOUtils, FiniteSets
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(9)
NoHand == "<none>"
RangeOf(s) == {s[k] : k \in 1..Len(s)}
\* masses may be tiny: relative to their size
MassNear(A, X) == IsMat(A, 6, 6) /\ FLe(MMax(MSub(A, X)), FAdd(FMul(Tol, MMax(X)), Eps(15)))
\* the two transverse inertias exchanged
Turned(M) == [M EXCEPT ![1][1] = M[3][3], ![3][3] = M[1][1]]
\* positions of joints are vectors, or the pose of a free joint
QNear(t, a, b) == IF t = "FreeJoint" THEN MNear(a, b, Tol) ELSE VNear(a, b, Tol)
DofsOf(t) == CASE t = "FreeJoint" -> 6 [] t = "RzRyRxJoint" -> 3 [] t = "RzJoint" -> 1 [] OTHER -> 2

Shaped(s, x) == s.name = x.name /\ s.t = x.t /\ s.body = x.body /\ MNear(s.h, x.h, Tol) /\ VNear(s.dims, x.dims, Tol)
\* each shape has its match, and conversely (identical ones are counted)
SameShapes(S, X) ==
  /\ Len(S) = Len(X)
  /\ \A k \in 1..Len(S) : LET T(Y) == Cardinality({m \in 1..Len(Y) : Y[m].name = S[k].name /\ Y[m].t = S[k].t /\ Y[m].body = S[k].body})
                          IN T(S) = T(X) /\ \E m \in 1..Len(X) : Shaped(S[k], X[m])
  /\ \A m \in 1..Len(X) : \E k \in 1..Len(S) : Shaped(S[k], X[m])

\* what was built is what is described; the frames without a name which the builders use are theirs
Content(e, D, hand) ==
  LET N == e.new
      got == {N.bodies[k].key : k \in 1..Len(N.bodies)}
      want == {D.bodies[k].key : k \in 1..Len(D.bodies)}
      named(F) == {F[k].name : k \in 1..Len(F)} \ {NoName}
      BodyOf(b) == N.bodies[CHOOSE k \in 1..Len(N.bodies) : N.bodies[k].key = b.key]
      nd == LET F(k) == FInt(DofsOf(D.bodies[k].jt)) IN Sum(F, Len(D.bodies))
  IN B("what existed is kept", N.kept)
  \cup (IF got # want \/ Len(N.bodies) # Len(D.bodies) THEN {"bodies"}
        ELSE B("names of the bodies", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).name = D.bodies[k].name)
        \cup B("masses of the bodies", \A k \in 1..Len(D.bodies) : LET b == D.bodies[k] IN
               MassNear(BodyOf(b).mass, b.mass) \/ (b.key = hand /\ MassNear(BodyOf(b).mass, Turned(b.mass))))
        \* this one is a clause of its own (see known_findings.txt)
        \cup B("inertia of the right hand", \A k \in 1..Len(D.bodies) : D.bodies[k].key = hand => ~MassNear(BodyOf(D.bodies[k]).mass, Turned(D.bodies[k].mass)))
        \cup B("no viscosity", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).visc = Mat0(6, 6))
        \cup B("tree of the bodies", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).parent = D.bodies[k].parent)
        \cup B("types of the joints", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).jt = D.bodies[k].jt)
        \cup B("names of the joints", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).jn = D.bodies[k].jn)
        \cup B("places of the joints", \A k \in 1..Len(D.bodies) : MNear(BodyOf(D.bodies[k]).h0, D.bodies[k].h0, Tol) /\ MNear(BodyOf(D.bodies[k]).h1, I4, Tol))
        \cup B("initial state", \A k \in 1..Len(D.bodies) : BodyOf(D.bodies[k]).jt # D.bodies[k].jt \/
               (QNear(D.bodies[k].jt, BodyOf(D.bodies[k]).q, D.bodies[k].q) /\ VNear(BodyOf(D.bodies[k]).v, D.bodies[k].v, Tol)))
        \cup B("number of joints", N.nj = Len(D.bodies))
        \cup B("total mass", LET F(k) == N.bodies[k].mass[6][6] IN Near(Sum(F, Len(N.bodies)), TotalMass(D), Tol))
        \cup B("degrees of freedom", FInt(e.ndof[2]) = FAdd(FInt(e.ndof[1]), nd) /\ e.ndof[3] = e.ndof[2] /\ e.ndof[4] = e.ndof[2]))
  \cup B("names of the frames", named(N.frames) = named(D.frames))
  \cup B("frames", \A k \in 1..Len(D.frames) : \E m \in 1..Len(N.frames) :
           /\ N.frames[m].name = D.frames[k].name /\ N.frames[m].body = D.frames[k].body /\ MNear(N.frames[m].h, D.frames[k].h, Tol))
  \cup B("frames appear once", \A a, b \in 1..Len(N.frames) : N.frames[a].name = N.frames[b].name /\ N.frames[a].name # NoName => a = b)
  \cup B("shapes", SameShapes(N.shapes, D.shapes))

\* limits: of every joint, in the right order, the same on both sides
Limits(T, lim) ==
  LET names == {T.joints[k].n : k \in 1..Len(T.joints)}
      Of_(R, n) == R[CHOOSE k \in 1..Len(R) : R[k].n = n]
      keys(R) == {R[k].n : k \in 1..Len(R)}
  IN IF keys(lim.rad) # names \/ keys(lim.deg) # names \/ keys(lim.torque) # names THEN {"every joint has its limits"}
     ELSE B("limits are intervals", \A k \in 1..Len(lim.rad) : FLt(lim.rad[k].lo, lim.rad[k].hi))
     \cup B("torque limits", \A k \in 1..Len(lim.torque) : FLt(Zero, lim.torque[k].t))
     \cup B("degrees and radians", LET f == FDiv(Pi, FInt(180)) IN \A n \in names :
            Near(Of_(lim.rad, n).lo, FMul(f, Of_(lim.deg, n).lo), Tol) /\ Near(Of_(lim.rad, n).hi, FMul(f, Of_(lim.deg, n).hi), Tol))
     \cup B("initial position within the limits or at 6 degrees of them", \A n \in names : FLe(Of_(lim.deg, n).lo, FInt(6)) /\ FLe(FInt(-6), Of_(lim.deg, n).hi))
Sides(lim) ==
  LET Row(R, n) == R[CHOOSE k \in 1..Len(R) : R[k].n = n]
      pairs == {<<"l_" \o x, "r_" \o x>> : x \in {"shoulder_pitch", "shoulder_roll", "shoulder_yaw", "elbow_pitch", "elbow_yaw", "wrist_roll", "wrist_pitch",
                                                  "hip_pitch", "hip_roll", "hip_yaw", "knee", "ankle_pitch", "ankle_roll"}}
      keys(R) == {R[k].n : k \in 1..Len(R)}
  IN B("the sides have the same limits", \A p \in pairs : {p[1], p[2]} \subseteq keys(lim.rad) /\ {p[1], p[2]} \subseteq keys(lim.torque) /\
       LET a == Row(lim.rad, p[1])  b == Row(lim.rad, p[2]) IN a.lo = b.lo /\ a.hi = b.hi /\ Row(lim.torque, p[1]).t = Row(lim.torque, p[2]).t)

Lengths_(e) ==
  IF DOMAIN e.L # LengthNames THEN {"names of the lengths"}
  ELSE LET W == Lengths(e.h) IN
       B("lengths", \A n \in LengthNames : Near(e.L[n], W[n], Tol))
  \cup (IF e.legs THEN B("height of the lengths", e.res = "ok" /\ Near(e.back, HeightOf(e.scaled), Tol)) ELSE B("unequal legs are refused", e.res = "ValueError"))
  \cup B("the height is given back", ~e.legs \/ e.L # e.scaled \/ (e.res = "ok" /\ Near(e.back, e.h, Tol)))

Mine(e) == e.op = "crash" \/ ((e.op \in {"human", "lengths"}) = (IOEnv.PROP = "R01"))
Bad(e) ==
  CASE ~Mine(e) -> {}
    [] e.op = "crash" -> {"exception: " \o e.res}
    [] e.op = "lengths" -> Lengths_(e)
    [] e.op = "human" -> Content(e, Human(e.L, e.mass, e.prefix), e.prefix \o "HandR")
    [] e.op = "arm" -> Content(e, SimpleArm(e.name, e.lengths, e.masses, e.shaped), NoHand)
    [] e.op = "snake" -> Content(e, Snake(e.lengths, e.masses, e.q, e.v, e.fixed), NoHand)
    [] e.op = "simple" -> Content(e, Simple(e.name, e.t, e.dims, e.mass), NoHand)
    [] e.op = "plane" -> Content(e, GroundPlane(e.up), NoHand)
    [] e.op = "icub" -> Content(e, ICub(e.tables, e.fixed, e.shapes_, e.contacts), NoHand) \cup Limits(e.tables, e.limits) \cup Sides(e.limits)
    [] e.op = "mirror" ->
         LET S == Mirror3(2) IN
         B("mirrored positions", \A k \in 1..Len(e.pairs) : VNear(MV(S, PosOf(e.pairs[k].l.pose)), PosOf(e.pairs[k].r.pose), Tol))
         \cup B("mirrored masses", \A k \in 1..Len(e.pairs) : LET p == e.pairs[k] IN
                  MassNear(WorldMass(p.r.mass, p.r.pose), MirrorMass(WorldMass(p.l.mass, p.l.pose), 2)))
         \cup B("sides", Len(e.pairs) = 13)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
