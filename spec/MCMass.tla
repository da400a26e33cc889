------------------------------ MODULE MCMass ------------------------------
(***************************************************************************)
(* The second moments of the solids against integrals over their slices    *)
(* (Boole's rule, exact for polynomials up to degree 5), parallel axes, and *)
(* preservation of the kinetic energy by transport.                        *)
(***************************************************************************)
EXTENDS Mass, TLC
VARIABLES h, m, s
Vals == {1, 2, 3}
Init == h \in [1..3 -> Vals] /\ m \in {1, 5} /\ s = "new"
Next == s = "new" /\ s' = "done" /\ UNCHANGED <<h, m>>
Spec == Init /\ [][Next]_<<h, m, s>>
Tol == Eps(14)
Q(n, d) == FDiv(FInt(n), FInt(d))
\* integral over [-1, 1]
Boole(F(_)) == FMul(Q(1, 45), FAdd(FAdd(FMul(FInt(7), FAdd(F(FInt(-1)), F(FInt(1)))),
                 FMul(FInt(32), FAdd(F(Q(-1, 2)), F(Q(1, 2))))), FMul(FInt(12), F(Zero))))
\* integral over [0, 1]: substitute (1+u)/2
Boole01(F(_)) == LET G(u) == F(FMul(Half, FAdd(One, u))) IN FMul(Half, Boole(G))
H3 == <<FInt(h[1]), FInt(h[2]), FInt(h[3])>>
M0 == FInt(m)
\* means over the unit solids, by slices of area A(z)
MeanZ2(A(_)) == LET F(z) == FMul(A(z), Sq(z)) IN FDiv(Boole(F), Boole(A))
Square(z) == One
Disc(z) == FSub(One, Sq(z))        \* area of the slice of the ball, over pi
\* mean of x^2 over the unit disc: that of r^2 by halves
DiscMean == LET R3(r) == FMul(r, Sq(r)) R1(r) == r IN FMul(Half, FDiv(Boole01(R3), Boole01(R1)))
Moments == s = "done" =>
  /\ VNear(BoxMeans(H3), [k \in 1..3 |-> FMul(Sq(H3[k]), MeanZ2(Square))], Tol)
  /\ VNear(EllipsoidMeans(H3), [k \in 1..3 |-> FMul(Sq(H3[k]), MeanZ2(Disc))], Tol)
  /\ VNear(CylinderMeans(H3[1], H3[2]), <<FMul(Sq(H3[2]), DiscMean), FMul(Sq(H3[2]), DiscMean),
                                          FMul(Sq(FMul(Half, H3[1])), MeanZ2(Square))>>, Tol)
  \* a box is made of two boxes side by side
  /\ LET half == BoxMass(<<FMul(Half, H3[1]), H3[2], H3[3]>>, FMul(Half, M0))
         At(x) == Transport(half, Transl(<<x, Zero, Zero>>))
         d == FMul(Half, H3[1])
     IN MNear(MAdd(At(d), At(FNeg(d))), BoxMass(H3, M0), Tol)
T1 == <<One, FInt(2), FInt(-1), FInt(3), Zero, FInt(1)>>
Energy == s = "done" =>
  LET M == BoxMass(H3, M0)
      H == MMul(RotZ(FInt(h[2])), MMul(RotX(FInt(m)), Transl(H3)))
      N == Transport(M, H)
  IN /\ IsMass(M) /\ IsMass(N)
     /\ Near(Dot(T1, MV(N, T1)), Dot(MoveTwist(H, T1), MV(M, MoveTwist(H, T1))), Tol)
     /\ VNear(ComOf(N), PosOf(HInv(H)), Tol)
     /\ ~IsMass(Diag(<<One, One, FInt(-1), One, One, One>>)) /\ ~IsMass(Diag(<<One, Zero, One, One, One, One>>))
     /\ IsSemiMass(Diag(<<One, Zero, One, Zero, Zero, Zero>>))
=============================================================================
