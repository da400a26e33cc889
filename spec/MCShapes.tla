------------------------------ MODULE MCShapes ------------------------------
(***************************************************************************)
(* Shapes in a grid of poses, and round shapes around them: the signed     *)
(* distance is that of the nearest point of the surface (which is sampled),*)
(* it is 1-Lipschitz, does not depend on the frame of the world, and the   *)
(* frames built at the foot of the center are the only witnesses.          *)
(***************************************************************************)
EXTENDS Shapes, TLC, Json, IOUtils
Deep == IOEnv.DEPTH = "all"
VARIABLES t, o, p, r, s
Q(n, d) == FDiv(FInt(n), FInt(d))
Turn(k) == CASE k = 0 -> I4
             [] k = 1 -> Hom(<<<<One, Zero, Zero>>, <<Zero, Zero, FInt(-1)>>, <<Zero, One, Zero>>>>, <<One, Zero, Zero>>)
             [] k = 2 -> Hom(<<<<Zero, FInt(-1), Zero>>, <<One, Zero, Zero>>, <<Zero, Zero, One>>>>, <<Zero, Half, FInt(-1)>>)
             [] k = 3 -> Hom(<<<<Q(3, 5), Zero, Q(4, 5)>>, <<Zero, One, Zero>>, <<Q(-4, 5), Zero, Q(3, 5)>>>>, <<Zero, Zero, One>>)
E3 == <<One, Half, Q(3, 4)>>
Shape(ty, k) == CASE ty = "Sphere" -> [t |-> ty, h |-> Turn(k), r |-> Half]
                  [] ty = "Point" -> [t |-> ty, h |-> Turn(k)]
                  [] ty = "Plane" -> [t |-> ty, h |-> Turn(k), n |-> <<Zero, Q(3, 5), Q(4, 5)>>, d |-> Q(1, 4)]
                  [] ty = "Box" -> [t |-> ty, h |-> Turn(k), e |-> E3]
Steps == IF Deep THEN -4..4 ELSE {-3, -1, 0, 2}
Init == /\ t \in {"Sphere", "Point", "Plane", "Box"} /\ o \in 0..3
        /\ p \in Steps \X Steps \X Steps /\ r \in 0..1 /\ s = "new"
Next == s = "new" /\ s' = "done" /\ UNCHANGED <<t, o, p, r>> /\ PrintT("B " \o ToJson([t |-> t, o |-> o, p |-> p, r |-> r]))
Spec == Init /\ [][Next]_<<t, o, p, r, s>>

\* centers are given in the frame of the shape, in halves
X == <<Q(p[1], 2), Q(p[2], 2), Q(p[3], 2)>>
A == Shape(t, o)
C == MovePoint(A.h, X)
B == IF r = 0 THEN [t |-> "Point", h |-> Transl(C)] ELSE [t |-> "Sphere", h |-> Transl(C), r |-> Q(1, 4)]
Tol == Eps(12)
\* sampled points of the surface, in the frame of the shape
Grid == {Q(i, 2) : i \in -2..2}
Unit3(v) == VScale(FDiv(One, Norm(v)), v)
Samples == CASE t = "Point" -> {Vec0(3)}
             [] t = "Sphere" -> {VScale(Half, Unit3(<<a, b, c>>)) : <<a, b, c>> \in {x \in Grid \X Grid \X Grid : x # Vec0(3)}}
             [] t = "Plane" -> {VAdd(VScale(A.d, A.n), VAdd(VScale(a, <<One, Zero, Zero>>), VScale(b, <<Zero, Q(4, 5), Q(-3, 5)>>))) : a \in Grid, b \in Grid}
             [] t = "Box" -> UNION {{<<FMul(u[1], E3[1]), FMul(u[2], E3[2]), FMul(u[3], E3[3])>> :
                                      u \in {x \in Grid \X Grid \X Grid : FAbs(x[i]) = One}} : i \in 1..3}
Inside == CASE t = "Point" -> FALSE
            [] t = "Sphere" -> FLt(Norm(X), Half)
            [] t = "Plane" -> FLt(Dot(A.n, X), A.d)
            [] t = "Box" -> \A i \in 1..3 : FLt(FAbs(X[i]), E3[i])
D == DistTo(A, C)
Minimal == s = "done" =>
  /\ FLt(Tol, FAbs(D)) => Inside = FLt(D, Zero)
  /\ \A x \in Samples : FLe(FSub(FAbs(D), Tol), Norm(VSub(x, X)))
Lipschitz == s = "done" =>
  \A i \in 1..3 : \A u \in {Half, FNeg(Half)} :
    LET C2 == MovePoint(A.h, VAdd(X, VScale(u, Unit(3, i))))
    IN FLe(FAbs(FSub(DistTo(A, C2), D)), FAdd(Half, Tol))
Invariant == s = "done" =>
  LET G == MMul(Turn(1), Turn(3))
  IN /\ Near(DistTo([A EXCEPT !.h = MMul(G, @)], MovePoint(G, C)), D, Tol)
     /\ Round(A) => Near(Dist(A, B), Dist(B, A), Tol)
\* a frame at the point c, whose third axis is z
FrameAt(c, z) == LET k == CHOOSE i \in 1..3 : FLe(FAbs(z[i]), Q(3, 5))
                     x == Unit3(Cross(z, Unit(3, k)))
                     y == Cross(z, x)
                 IN Hom(MT(<<x, y, z>>), c)
Face == CHOOSE i \in 1..3 : \A j \in 1..3 : FLe(FSub(E3[i], FAbs(X[i])), FSub(E3[j], FAbs(X[j])))
Sgn(x) == IF FSgn(x) = -1 THEN FInt(-1) ELSE One
\* foot of the center on the surface and outward normal there, in the frame of the shape
Foot == CASE Round(A) -> <<VScale(Radius(A), Unit3(X)), Unit3(X)>>
          [] t = "Plane" -> <<VAdd(X, VScale(FNeg(D), A.n)), A.n>>
          [] t = "Box" -> IF \A i \in 1..3 : FLe(FAbs(X[i]), E3[i])
                          THEN LET z == VScale(Sgn(X[Face]), Unit(3, Face)) IN <<VAdd(X, VScale(FNeg(D), z)), z>>
                          ELSE <<VAdd(X, VScale(FNeg(D), Unit3(VSub(X, [i \in 1..3 |-> FMax(FNeg(E3[i]), FMin(E3[i], X[i]))])))),
                                 Unit3(VSub(X, [i \in 1..3 |-> FMax(FNeg(E3[i]), FMin(E3[i], X[i]))]))>>
Ok(d, H0, H1) == BadWitness(A, B, d, H0, H1, Eps(9)) = {}
Witnesses == s = "done" /\ ~Degenerate(A, B, Eps(6)) =>
  LET d == Dist(A, B)
      z == MV(RotOf(A.h), Foot[2])
      c == MovePoint(A.h, Foot[1])
      H0 == FrameAt(c, z)
      H1 == FrameAt(VAdd(c, VScale(d, z)), z)
      H0b == FrameAt(c, VNeg(z))
      out == VAdd(c, VScale(Q(1, 100), <<One, Two, One>>))
  IN /\ Ok(d, H0, H1)
     \* other values are no witnesses
     /\ ~Ok(FAdd(d, Eps(5)), H0, FrameAt(VAdd(c, VScale(FAdd(d, Eps(5)), z)), z))
     /\ ~Ok(d, H0b, FrameAt(VAdd(c, VScale(FNeg(d), VNeg(z))), VNeg(z))) \/ NearSurface(A, B, Eps(6))
     /\ ~Ok(d, H1, H0) \/ FLe(FAbs(d), Eps(9))
     /\ ~Ok(d, FrameAt(out, z), FrameAt(VAdd(out, VScale(d, z)), z)) \/ NearSurface(A, B, Eps(6))
     /\ ~Ok(d, Hom(MScale(FInt(-1), RotOf(H0)), PosOf(H0)), Hom(MScale(FInt(-1), RotOf(H1)), PosOf(H1)))
=============================================================================
