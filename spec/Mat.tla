-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Vectors (tuples of numbers) and matrices (tuples of rows) over Fix.     *)
(***************************************************************************)
EXTENDS Fix

IsVec(v, n) == DOMAIN v = 1..n
IsMat(A, m, n) == DOMAIN A = 1..m /\ \A i \in 1..m : IsVec(A[i], n)

RECURSIVE SumTo(_, _)
LOCAL SumTo(v, n) == IF n = 0 THEN Zero ELSE FAdd(SumTo(v, n-1), v[n])
VSum(v) == SumTo(v, Len(v))

VAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
VScale(s, a) == [i \in 1..Len(a) |-> FMul(s, a[i])]
Dot(a, b) == VSum([i \in 1..Len(a) |-> FMul(a[i], b[i])])

MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MScale(s, A) == [i \in 1..Len(A) |-> VScale(s, A[i])]

LOCAL NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
LOCAL Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
MT(A) == [j \in 1..NCols(A) |-> Col(A, j)]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..NCols(B) |-> Dot(A[i], Col(B, j))]]
MV(A, v) == [i \in 1..Len(A) |-> Dot(A[i], v)]

\* largest absolute value of the entries (NaN if one of them is NaN)
LOCAL Larger(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE IF FLt(x, y) THEN y ELSE x
RECURSIVE MaxTo(_, _)
LOCAL MaxTo(v, n) == IF n = 0 THEN Zero ELSE Larger(MaxTo(v, n-1), FAbs(v[n]))
VMax(v) == MaxTo(v, Len(v))
MMax(A) == VMax([i \in 1..Len(A) |-> VMax(A[i])])

-----------------------------------------------------------------------------
One == FInt(1)
Two == FInt(2)
Half == FDiv(One, Two)

RECURSIVE Pow10(_)
LOCAL Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n-1)
\* 10^-k, k <= 17
Eps(k) == IF k <= 9 THEN FDiv(One, FInt(Pow10(k)))
          ELSE FDiv(FDiv(One, FInt(Pow10(9))), FInt(Pow10(k-9)))

Vec0(n) == [i \in 1..n |-> Zero]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN One ELSE Zero]
Mat0(m, n) == [i \in 1..m |-> Vec0(n)]
Id(n) == [i \in 1..n |-> Unit(n, i)]
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE Zero]]
Column(A, j) == [i \in 1..Len(A) |-> A[i][j]]
\* rows r1..r2 and columns c1..c2
Block(A, r1, r2, c1, c2) == [i \in 1..(r2-r1+1) |-> [j \in 1..(c2-c1+1) |-> A[r1+i-1][c1+j-1]]]
Sub(v, a, b) == [i \in 1..(b-a+1) |-> v[a+i-1]]
VNeg(v) == VScale(FInt(-1), v)
MNeg(A) == MScale(FInt(-1), A)
MVCat(A, B) == A \o B
Norm2(v) == Dot(v, v)
Norm(v) == FSqrt(Norm2(v))

FMax(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE IF FLt(x, y) THEN y ELSE x
FMin(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE IF FLt(x, y) THEN x ELSE y

\* agreement up to rounding: |a - b| <= tol * (1 + |b|); FALSE with NaN, and
\* FALSE when the shapes differ
Near(a, b, tol) == FLe(FAbs(FSub(a, b)), FMul(tol, FAdd(One, FAbs(b))))
VNear(a, b, tol) == /\ DOMAIN a = DOMAIN b
                    /\ FLe(VMax(VSub(a, b)), FMul(tol, FAdd(One, VMax(b))))
MNear(A, B, tol) == /\ DOMAIN A = DOMAIN B
                    /\ \A i \in DOMAIN A : DOMAIN A[i] = DOMAIN B[i]
                    /\ FLe(MMax(MSub(A, B)), FMul(tol, FAdd(One, MMax(B))))

Sum(S(_), n) == LET f[k \in 0..n] == IF k = 0 THEN Zero ELSE FAdd(f[k-1], S(k)) IN f[n]
VSumOver(F(_), n, zero) == LET f[k \in 0..n] == IF k = 0 THEN zero ELSE VAdd(f[k-1], F(k)) IN f[n]
MSumOver(F(_), n, zero) == LET f[k \in 0..n] == IF k = 0 THEN zero ELSE MAdd(f[k-1], F(k)) IN f[n]
=============================================================================
