-------------------------------- MODULE Mass --------------------------------
(***************************************************************************)
(* Mass matrices, from their definition: the kinetic energy of a solid is  *)
(* half the quadratic form of its mass matrix on its twist.                *)
(***************************************************************************)
EXTENDS Geom

Symmetric(M, tol) == MNear(M, MT(M), tol)

\* pivots of the symmetric elimination: all positive iff M is positive definite
RECURSIVE Eliminate(_, _, _)
LOCAL Eliminate(M, n, k) ==
  IF k > n THEN <<>>
  ELSE IF ~FLt(Zero, M[k][k]) THEN <<M[k][k]>>
  ELSE LET Row(i) == IF i <= k THEN M[i]
                     ELSE LET c == FDiv(M[i][k], M[k][k])
                          IN [j \in 1..n |-> FSub(M[i][j], FMul(c, M[k][j]))]
           g[i \in 0..n] == IF i = 0 THEN <<>> ELSE Append(g[i-1], Row(i))
       IN <<M[k][k]>> \o Eliminate(g[n], n, k+1)
Pivots(M) == Eliminate(M, Len(M), 1)
PosDef(M) == LET p == Pivots(M) IN Len(p) = Len(M) /\ \A k \in 1..Len(p) : FLt(Zero, p[k])

Isotropic(M, tol) == MNear(Block(M, 4, 6, 4, 6), MScale(M[4][4], I3), tol)
\* regular mass matrices
IsMass(M) == IsMat(M, 6, 6) /\ Symmetric(M, Eps(6)) /\ Isotropic(M, Eps(6)) /\ PosDef(M)
\* semi-definite: M + eps*1 is regular (and isotropic, symmetric)
IsSemiMass(M) == IsMat(M, 6, 6) /\ Symmetric(M, Eps(6)) /\ Isotropic(M, Eps(6))
                 /\ PosDef(MAdd(M, MScale(Eps(6), Id(6))))

\* a solid of mass m whose axes are principal, with second moments s
Solid(m, s) == Diag(<<FAdd(s[2], s[3]), FAdd(s[1], s[3]), FAdd(s[1], s[2]), m, m, m>>)
Sq(x) == FMul(x, x)
\* means of x^2, y^2, z^2 over the homogeneous solids
BoxMeans(h) == [k \in 1..3 |-> FDiv(Sq(h[k]), FInt(3))]
EllipsoidMeans(r) == [k \in 1..3 |-> FDiv(Sq(r[k]), FInt(5))]
CylinderMeans(len, r) == <<FDiv(Sq(r), FInt(4)), FDiv(Sq(r), FInt(4)), FDiv(Sq(len), FInt(12))>>
BoxMass(h, m) == Solid(m, VScale(m, BoxMeans(h)))
EllipsoidMass(r, m) == Solid(m, VScale(m, EllipsoidMeans(r)))
SphereMass(r, m) == EllipsoidMass(<<r, r, r>>, m)
CylinderMass(len, r, m) == Solid(m, VScale(m, CylinderMeans(len, r)))

\* matrix seen from b, H = H_ab, M expressed in a
Transport(M, H) == MMul(MT(Ad(H)), MMul(M, Ad(H)))
\* M[1..3, 4..6] = m hat(com)
MassOf(M) == M[6][6]
ComOf(M) == LET m == MassOf(M) IN <<FDiv(M[3][5], m), FDiv(M[1][6], m), FDiv(M[2][4], m)>>
OffDiagonal(M) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> IF a = b THEN Zero ELSE M[a][b]]]
=============================================================================
