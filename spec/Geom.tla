-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Rigid displacements (4x4 homogeneous matrices), twists (<<w, v>>, the   *)
(* rotation first), adjoint and adjacency matrices, from their             *)
(* definitions.                                                            *)
(***************************************************************************)
EXTENDS Mat

-----------------------------------------------------------------------------
(* Elementary functions                                                    *)

\* Taylor series for |x| <= 1/2
RECURSIVE SinFrom(_, _, _, _), CosFrom(_, _, _, _)
LOCAL SinFrom(x2, term, n, acc) ==       \* term = +- x^n / n!
  IF n > 19 THEN acc
  ELSE LET t == FNeg(FDiv(FMul(term, x2), FInt((n+1)*(n+2))))
       IN SinFrom(x2, t, n+2, FAdd(acc, t))
LOCAL CosFrom(x2, term, n, acc) ==
  IF n > 18 THEN acc
  ELSE LET t == FNeg(FDiv(FMul(term, x2), FInt((n+1)*(n+2))))
       IN CosFrom(x2, t, n+2, FAdd(acc, t))

\* << sin x, cos x >>, by halving the angle
RECURSIVE SinCos(_)
SinCos(x) ==
  IF x = NaN THEN <<NaN, NaN>>
  ELSE IF FLe(FAbs(x), Half)
  THEN LET x2 == FMul(x, x) IN <<SinFrom(x2, x, 1, x), CosFrom(x2, One, 0, One)>>
  ELSE LET h == SinCos(FMul(x, Half))
       IN <<FMul(Two, FMul(h[1], h[2])), FSub(One, FMul(Two, FMul(h[1], h[1])))>>
Sin(x) == SinCos(x)[1]
Cos(x) == SinCos(x)[2]

\* pi, from Machin's formula: 16 atan(1/5) - 4 atan(1/239)
RECURSIVE AtanInv(_, _, _, _)
LOCAL AtanInv(n2, pow, k, sgn) ==         \* pow = 1 / n^k
  IF pow = Zero THEN Zero
  ELSE FAdd(FDiv(IF sgn = 1 THEN pow ELSE FNeg(pow), FInt(k)),
            AtanInv(n2, FDiv(pow, n2), k+2, -sgn))
Pi == FSub(FMul(FInt(16), AtanInv(FInt(25), FDiv(One, FInt(5)), 1, 1)),
           FMul(FInt(4), AtanInv(FInt(57121), FDiv(One, FInt(239)), 1, 1)))

-----------------------------------------------------------------------------
(* Vectors, displacements                                                  *)

Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])),
                 FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                 FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Hat(w) == <<<<Zero, FNeg(w[3]), w[2]>>,
            <<w[3], Zero, FNeg(w[1])>>,
            <<FNeg(w[2]), w[1], Zero>>>>

Hom(R, p) == <<<<R[1][1], R[1][2], R[1][3], p[1]>>,
               <<R[2][1], R[2][2], R[2][3], p[2]>>,
               <<R[3][1], R[3][2], R[3][3], p[3]>>,
               <<Zero, Zero, Zero, One>>>>
RotOf(H) == <<<<H[1][1], H[1][2], H[1][3]>>, <<H[2][1], H[2][2], H[2][3]>>, <<H[3][1], H[3][2], H[3][3]>>>>
PosOf(H) == <<H[1][4], H[2][4], H[3][4]>>
I3 == Id(3)
I4 == <<<<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, One>>>>
O4 == <<<<Zero, Zero, Zero, Zero>>, <<Zero, Zero, Zero, Zero>>, <<Zero, Zero, Zero, Zero>>, <<Zero, Zero, Zero, Zero>>>>

Transl(t) == Hom(I3, t)
RotX(a) == LET s == SinCos(a) IN
  <<<<One, Zero, Zero, Zero>>, <<Zero, s[2], FNeg(s[1]), Zero>>, <<Zero, s[1], s[2], Zero>>, <<Zero, Zero, Zero, One>>>>
RotY(a) == LET s == SinCos(a) IN
  <<<<s[2], Zero, s[1], Zero>>, <<Zero, One, Zero, Zero>>, <<FNeg(s[1]), Zero, s[2], Zero>>, <<Zero, Zero, Zero, One>>>>
RotZ(a) == LET s == SinCos(a) IN
  <<<<s[2], FNeg(s[1]), Zero, Zero>>, <<s[1], s[2], Zero, Zero>>, <<Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, One>>>>

\* inverse of a displacement
HInv(H) == LET Rt == MT(RotOf(H)) IN Hom(Rt, VNeg(MV(Rt, PosOf(H))))
MovePoint(H, p) == VAdd(MV(RotOf(H), p), PosOf(H))
MoveVector(H, v) == MV(RotOf(H), v)

Det3(R) == Dot(R[1], Cross(R[2], R[3]))
IsRotation(R, tol) == /\ IsMat(R, 3, 3)
                      /\ MNear(MMul(R, MT(R)), I3, tol)
                      /\ Near(Det3(R), One, tol)
IsRigid(H, tol) == /\ IsMat(H, 4, 4)
                   /\ IsRotation(RotOf(H), tol)
                   /\ H[4] = <<Zero, Zero, Zero, One>>
                   /\ VMax(PosOf(H)) # NaN

-----------------------------------------------------------------------------
(* Twists                                                                  *)

\* 4x4 matrix of a twist and back
HatT(t) == <<<<Zero, FNeg(t[3]), t[2], t[4]>>,
             <<t[3], Zero, FNeg(t[1]), t[5]>>,
             <<FNeg(t[2]), t[1], Zero, t[6]>>,
             <<Zero, Zero, Zero, Zero>>>>
Vee(X) == <<X[3][2], X[1][3], X[2][1], X[1][4], X[2][4], X[3][4]>>

\* the twist t seen in the frame a, where t is expressed in b and H = H_ab
MoveTwist(H, t) == Vee(MMul(H, MMul(HatT(t), HInv(H))))
\* Lie bracket
Bracket(s, t) == Vee(MSub(MMul(HatT(s), HatT(t)), MMul(HatT(t), HatT(s))))

Assemble(A, B, C, D) == [k \in 1..6 |-> IF k <= 3 THEN A[k] \o B[k] ELSE C[k-3] \o D[k-3]]
Z3 == Mat0(3, 3)
Ad(H) == LET R == RotOf(H) IN Assemble(R, Z3, MMul(Hat(PosOf(H)), R), R)
Adj(t) == Assemble(Hat(<<t[1], t[2], t[3]>>), Z3, Hat(<<t[4], t[5], t[6]>>), Hat(<<t[1], t[2], t[3]>>))
\* time derivative of Ad(H) when that of H is Ht
AdDot(H, Ht) == LET R == RotOf(H)  Rt == RotOf(Ht)
                IN Assemble(Rt, Z3, MAdd(MMul(Hat(PosOf(Ht)), R), MMul(Hat(PosOf(H)), Rt)), Rt)

\* exponential of a 4x4 matrix: scaling and squaring of the series
RECURSIVE ExpSeries(_, _, _, _), ExpMat(_)
LOCAL ExpSeries(X, term, n, acc) ==
  IF n > 18 THEN acc
  ELSE LET t == MScale(FDiv(One, FInt(n)), MMul(term, X)) IN ExpSeries(X, t, n+1, MAdd(acc, t))
ExpMat(X) == IF MMax(X) = NaN THEN MScale(NaN, X)
             ELSE IF FLe(MMax(X), FDiv(One, FInt(8))) THEN ExpSeries(X, I4, 1, I4)
             ELSE LET Y == ExpMat(MScale(Half, X)) IN MMul(Y, Y)
Exp(t) == ExpMat(HatT(t))
=============================================================================
