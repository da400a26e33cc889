------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Shapes and the distances between them.  A shape is [t, h, ...]: h is    *)
(* the pose of its frame, a Sphere has a radius r, a Box half extents e, a *)
(* Plane a unit normal n and a number d (the points x such that n.x = d),  *)
(* all in the frame; a Point is at the origin.                             *)
(***************************************************************************)
EXTENDS Geom

Round(s) == s.t \in {"Sphere", "Point"}
Radius(s) == IF s.t = "Sphere" THEN s.r ELSE Zero
Supported(a, b) ==
  \/ a = "Sphere" /\ b \in {"Sphere", "Point", "Plane", "Box"}
  \/ a = "Point" /\ b \in {"Sphere", "Plane", "Box"}
  \/ a \in {"Plane", "Box"} /\ b \in {"Sphere", "Point"}
Rank(t) == CASE t = "Plane" -> 1 [] t = "Box" -> 2 [] t = "Sphere" -> 3 [] t = "Point" -> 4 [] OTHER -> 5
\* TRUE if the shapes a, b are taken in the other order
Swapped(a, b) == Rank(b) < Rank(a)

\* the point in the frame of the shape
Local(s, p) == MovePoint(HInv(s.h), p)
LOCAL Clamp(x, e) == IF FLt(e, x) THEN e ELSE IF FLt(x, FNeg(e)) THEN FNeg(e) ELSE x
InBox(e, x) == \A i \in 1..3 : FLe(FAbs(x[i]), e[i])
LOCAL Nearest(e, x) == <<Clamp(x[1], e[1]), Clamp(x[2], e[2]), Clamp(x[3], e[3])>>
\* signed distance from the surface of a solid to a point p of the world
DistTo(s, p) ==
  LET x == Local(s, p)
  IN CASE Round(s) -> FSub(Norm(x), Radius(s))
       [] s.t = "Plane" -> FSub(Dot(s.n, x), s.d)
       [] s.t = "Box" -> IF InBox(s.e, x)
                         THEN FNeg(FMin(FSub(s.e[1], FAbs(x[1])), FMin(FSub(s.e[2], FAbs(x[2])), FSub(s.e[3], FAbs(x[3])))))
                         ELSE Norm(VSub(x, Nearest(s.e, x)))
\* distance between two shapes, the second one being round
Dist(a, b) == FSub(DistTo(a, PosOf(b.h)), Radius(b))
\* the point p of the world is on the surface of s, whose outward normal there is z (up to tol)
OnSurface(s, p, z, tol) ==
  LET x == Local(s, p)
      y == MV(MT(RotOf(s.h)), z)
  IN CASE s.t = "Point" -> FLe(VMax(x), tol)
       [] s.t = "Sphere" -> FLe(VMax(VSub(x, VScale(s.r, y))), tol)
       [] s.t = "Plane" -> FLe(VMax(VSub(y, s.n)), tol) /\ FLe(FAbs(FSub(Dot(s.n, x), s.d)), tol)
       [] s.t = "Box" -> /\ \A i \in 1..3 : FLe(FAbs(x[i]), FAdd(s.e[i], tol))
                         /\ \E i \in 1..3 : FLe(FAbs(FSub(FAbs(x[i]), s.e[i])), tol)
                         \* the normal is in the cone of the faces to which the point belongs
                         /\ \A i \in 1..3 : \/ FLe(FAbs(y[i]), tol)
                                            \/ FLe(FAbs(FSub(FAbs(x[i]), s.e[i])), tol) /\ FSgn(y[i]) = FSgn(x[i])
ZAxis(H) == <<H[1][3], H[2][3], H[3][3]>>
\* d, H0, H1 are the distance of the shapes a, b and their contact frames
Witness(a, b, d, H0, H1, tol) ==
  LET z == ZAxis(H0)
  IN [rigid |-> IsRigid(H0, tol) /\ IsRigid(H1, tol),
      aligned |-> MNear(RotOf(H1), RotOf(H0), tol),
      apart |-> FLe(VMax(VSub(PosOf(H1), VAdd(PosOf(H0), VScale(d, z)))), FMul(tol, FAdd(One, FAbs(d)))),
      first |-> OnSurface(a, PosOf(H0), z, tol),
      second |-> OnSurface(b, PosOf(H1), VNeg(z), tol),
      distance |-> Near(d, Dist(a, b), tol)]
\* the normal is not defined
Degenerate(a, b, tol) == Round(a) /\ FLe(Norm(Local(a, PosOf(b.h))), tol)
\* the normal is badly conditioned
NearSurface(a, b, tol) == a.t = "Box" /\ FLe(FAbs(DistTo(a, PosOf(b.h))), tol)
\* clauses of Witness which are not satisfied
BadWitness(a, b, d, H0, H1, tol) ==
  LET wit == Witness(a, b, d, H0, H1, tol)
  IN IF Degenerate(a, b, Eps(6)) THEN {}
     ELSE {k \in DOMAIN wit : ~wit[k]} \ (IF NearSurface(a, b, Eps(6)) THEN {"first", "second"} ELSE {})
=============================================================================
