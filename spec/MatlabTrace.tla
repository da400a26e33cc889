---------------------------- MODULE MatlabTrace ----------------------------
(***************************************************************************)
(* X01: a robot which is converted is the same tree, whose joints with     *)
(* several axes became chains, put on a base when it had none.             *)
(* X02: the file written for a robot is read again as the same tree, with  *)
(* the same frames, masses, shapes, positions and velocities; what cannot  *)
(* be written is refused, and the file is marked.                          *)
(* See Matlab.tla.                                                         *)
(***************************************************************************)
EXTENDS Matlab, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES case, at
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(11)
MC(a, b, t) == Len(a) = Len(b) /\ IsMat(a, Len(b), Len(b[1])) /\ FLe(MMax(MSub(a, b)), t)
Ones(v) == IF v = <<>> THEN One ELSE LET m == VMax(v) IN IF FLt(One, m) THEN m ELSE One
\* to 11 digits
VC(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : FLe(FAbs(FSub(a[k], b[k])), FMul(Tol, Ones(b)))
MCR(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : Len(a[k]) = Len(b[k]) /\ FLe(VMax(VSub(a[k], b[k])), FMul(Tol, FAdd(One, MMax(b))))
LinkOf(tr, i) == CHOOSE k \in 1..Len(tr.links) : tr.links[k].id = i
Count(n, F(_)) == LET f[k \in 0..n] == IF k = 0 THEN 0 ELSE f[k-1] + F(k) IN f[n]

\* ------------------------------------------------------------ conversion
\* the links from the body a to the body b; <<>> if there are none
RECURSIVE Way(_, _, _)
Way(tr, a, b) ==
  IF b = 0 THEN <<>>
  ELSE LET S == {k \in 1..Len(tr.links) : tr.links[k].child = b}
       IN IF Cardinality(S) # 1 THEN <<>>
          ELSE LET k == CHOOSE k \in S : TRUE
               IN IF tr.links[k].parent = a THEN <<k>>
                  ELSE LET w == Way(tr, a, tr.links[k].parent) IN IF w = <<>> THEN <<>> ELSE Append(w, k)
Unnamed == "None"
Converted(e) ==
  LET c == e.tree  A == e.after  r == LinkOf(c, e.root)
      n == Len(c.links)
      base == c.links[r].type # "FreeJoint"
      One1(k) ==
        LET l == c.links[k]  R == Replaced(c, k, r)  W == Way(A, l.parent, l.child)
            multi == ~R[Len(R)].old
            Name(m) == IF l.name = Unnamed THEN Unnamed ELSE l.name \o Suffix(R[m].type)
            where == IF k = r THEN " of the root" ELSE ""
        IN IF Len(W) # Len(R) THEN {"links" \o where}
           ELSE B("types" \o where, \A m \in 1..Len(R) : A.links[W[m]].type = R[m].type)
                \cup B("frames" \o where, \A m \in 1..Len(R) : MC(A.links[W[m]].h0, R[m].h0, Tol) /\ MC(A.links[W[m]].h1, R[m].h1, Tol))
                \cup B("joints kept" \o where, \A m \in 1..Len(R) : (A.links[W[m]].id = l.id) = R[m].old)
                \cup B("positions and velocities kept" \o where, \A m \in 1..Len(R) : R[m].old => A.links[W[m]].q = l.q /\ A.links[W[m]].v = l.v /\ A.links[W[m]].name = l.name)
                \cup B("names" \o where, \A m \in 1..Len(R) : ~R[m].old /\ R[m].type # "FreeJoint" => A.links[W[m]].name = Name(m))
                \cup B("intermediate masses" \o where, \A m \in (IF k = r /\ base THEN 2 ELSE 1)..(Len(R)-1) : MC(A.mass[A.links[W[m]].child], Intermediate, Tol))
                \cup B("base", k = r /\ base => LET M == A.mass[A.links[W[1]].child]
                                                IN \A x \in 1..6, y \in 1..6 : IF x # y THEN Near(M[x][y], Zero, Tol) ELSE IF x > 3 THEN Near(M[x][x], FInt(10000), Eps(8)) ELSE FLt(Zero, M[x][x]))
                \cup B("new bodies" \o where, \A m \in 1..(Len(R)-1) : A.links[W[m]].child > c.nb)
      baseb == LET W == Way(A, 0, c.links[r].child) IN IF W = <<>> THEN -1 ELSE A.links[W[1]].child
      L == <<FDiv(One, FInt(4)), FDiv(One, FInt(10)), FDiv(One, FInt(20))>>
      Rad == FDiv(One, FInt(20))
      Corner(i, j) == <<FMul(FInt(i), FMul(Half, L[1])), FNeg(FMul(Half, L[2])), FMul(FInt(j), FMul(Half, L[3]))>>
      G == {x \in 1..Len(e.balls) : e.balls[x].body = 0}
      S == {x \in 1..Len(e.balls) : e.balls[x].body = baseb /\ baseb # -1}
  IN UNION {One1(k) : k \in 1..n}
     \cup B("number of links", Len(A.links) = Count(n, LAMBDA k : Len(Replaced(c, k, r))))
     \cup B("number of bodies", A.nb = c.nb + Count(n, LAMBDA k : Len(Replaced(c, k, r)) - 1))
     \cup B("masses of the bodies", \A b \in 1..c.nb : A.mass[b] = c.mass[b])
     \cup B("other elements", e.kept)
     \cup B("nothing is put under a free robot", ~base => e.balls = <<>> /\ e.pairs = <<>>)
     \cup B("ground of the base", base => Cardinality(G) = 1 /\ \A x \in G : LET g == e.balls[x]
              IN g.t = "Box" /\ MC(g.h, I4, Tol) /\ LET D(m) == FAdd(FMul(Half, L[m]), FMul(FInt(2), Rad)) IN VC(g.d, EqSeq(3, D)))
     \cup B("balls of the base", base => /\ Len(e.balls) = 5 /\ Cardinality(S) = 4
              /\ \A x \in S : e.balls[x].t = "Sphere" /\ VC(e.balls[x].d, <<Rad>>)
              /\ \A i \in {-1, 1}, j \in {-1, 1} : \E y \in S : MC(e.balls[y].h, Hom(RotOf(I4), Corner(i, j)), Tol))
     \cup B("contacts of the base", base => e.pairs = <<"SoftFingerContact", "SoftFingerContact", "SoftFingerContact", "SoftFingerContact">>)

\* --------------------------------------------------------------- writing
\* linear parts first
Swap6(v) == <<v[4], v[5], v[6], v[1], v[2], v[3]>>
SwapM(M) == LET P(i) == ((i + 2) % 6) + 1  R(i) == LET C(j) == M[P(i)][P(j)] IN EqSeq(6, C) IN EqSeq(6, R)
AxisNo(t) == CASE t = "RxJoint" -> 4 [] t = "RyJoint" -> 5 [] t = "RzJoint" -> 6
Col6(a) == LET R(i) == <<IF i = a THEN One ELSE Zero>> IN EqSeq(6, R)
\* the vector E' is written as a column
IsAxis(E, t) == IF t = "FreeJoint" THEN MC(E, Diag(<<One, One, One, One, One, One>>), Tol) ELSE MCR(E, Col6(AxisNo(t)))
ShapesOf(e, b) == {x \in 1..Len(e.shapes) : e.shapes[x].body = b}
Written(e, r) == {b \in 1..e.tree.nb : \E k \in Below(e.tree, r) \cup {r} : e.tree.links[k].child = b}
Dims(s) == CASE s.t = "Sphere" -> <<"sphere", s.d>>
             [] s.t = "Point" -> <<"sphere", <<FDiv(One, FInt(100))>>>>
             [] s.t = "Box" -> <<"parallelepiped", VScale(FInt(2), s.d)>>
             [] s.t = "Cylinder" -> <<"cylinder", <<s.d[2], s.d[1]>>>>
SameShape(y, s) == y.t = Dims(s)[1] /\ VC(y.dims, Dims(s)[2]) /\ MC(y.h, s.h, Tol)
RECURSIVE Pair2(_, _, _)
Pair2(e, X, L) == IF X = {} THEN L = <<>>
                  ELSE L # <<>> /\ LET M == {x \in X : SameShape(L[1], e.shapes[x])} IN M # {} /\ Pair2(e, X \ {CHOOSE x \in M : TRUE}, Tail(L))
SameShapes(e, b, l) == Pair2(e, ShapesOf(e, b), l.sh)
\* what the file says of a robot
Text(e, r) ==
  LET c == e.tree  E == e.file.br
      n == Cardinality(Below(c, r)) + 1
      NE == Count(Len(E), LAMBDA b : Len(E[b].bd))
      none == ~(\E b \in Written(e, r) : ShapesOf(e, b) # {})
      roots == /\ Len(E) >= 1 /\ E[1].root = <<0, 0>>
               /\ \A b \in 1..Len(E) : Len(E[b].bd) >= 1
               /\ \A b \in 2..Len(E) : E[b].root[1] \in 1..(b-1) /\ E[b].root[2] \in 1..Len(E[E[b].root[1]].bd)
      FL == LET BB(b) == [root |-> E[b].root, ls |-> E[b].bd] IN Flat(EqSeq(Len(E), BB))
      Lk(x) == FL[x].l
      Kind(x, k) == Lk(x).name = c.links[k].name /\ IsAxis(Lk(x).e, c.links[k].type)
      Frm(x, k) == MC(Lk(x).h0, c.links[k].h0, Tol) /\ MC(Lk(x).h1, c.links[k].h1, Tol)
      Mss(x, k) == MCR(Lk(x).m, SwapM(c.mass[c.links[k].child]))
      Shp(x, k) == IF none THEN Len(Lk(x).sh) = (IF x = 1 THEN 1 ELSE 0) ELSE SameShapes(e, c.links[k].child, Lk(x))
      \* the positions, then the velocities after those of the first joint
      Qs(x, k) == k = r \/ VC(<<e.file.q[x-1]>>, c.links[k].q)
      Vs(x, k) == IF k = r THEN VC(SubSeq(e.file.t, 1, 6), Swap6(c.links[k].v)) ELSE VC(<<e.file.t[x+5]>>, c.links[k].v)
      Try(F(_, _)) == Same2(FL, 1, c, r, [x \in 1..Len(FL) |-> [k \in 1..Len(c.links) |-> F(x, k)]])
      K(x, k) == Kind(x, k)
      KF(x, k) == Kind(x, k) /\ Frm(x, k)
      KFM(x, k) == KF(x, k) /\ Mss(x, k)
      KFMS(x, k) == KFM(x, k) /\ Shp(x, k)
      KFMSQ(x, k) == KFMS(x, k) /\ Qs(x, k)
      All(x, k) == KFMSQ(x, k) /\ Vs(x, k)
  IN B("name", e.file.name = e.name)
     \cup B("branches", roots)
     \cup B("number of links", NE = n)
     \cup B("numbers of positions and velocities", Len(e.file.q) = n - 1 /\ Len(e.file.t) = n + 5)
     \cup B("pose", MC(e.file.h0, c.links[r].q, Tol))
     \cup (IF ~roots \/ NE # n \/ Len(e.file.q) # n - 1 \/ Len(e.file.t) # n + 5 THEN {}
           ELSE IF Try(All) THEN {}
           ELSE IF ~Try(K) THEN {"tree"} ELSE IF ~Try(KF) THEN {"frames"} ELSE IF ~Try(KFM) THEN {"masses"}
           ELSE IF ~Try(KFMS) THEN {"shapes"} ELSE IF ~Try(KFMSQ) THEN {"positions"} ELSE {"velocities"})
Refused(e, r) ==
  LET c == e.tree
  IN \/ c.links[r].type # "FreeJoint"
     \/ \E k \in Below(c, r) : c.links[k].type \notin Revolute
     \/ \E b \in Written(e, r) : \E x \in ShapesOf(e, b) : e.shapes[x].t = "Plane"
Uniform(tl) == \A k \in 2..Len(tl) : Near(FSub(tl[k], tl[k-1]), FSub(tl[2], tl[1]), FMul(Eps(9), Ones(tl)))
Answer(e, refused) ==
  IF refused THEN B("refused", e.res = "refused") \cup B("marked", e.wrote => e.marked)
  ELSE B("written (" \o e.res \o ")", e.res = "ok") \cup B("marked", e.res = "ok" => ~e.marked)
Bad(e) ==
  IF e.res = "crash" THEN {"exception (" \o e.op \o "): " \o e.why}
  ELSE IF e.op = "convert" THEN (IF e.res # "ok" THEN {"converted: " \o e.res} ELSE Converted(e))
  ELSE IF e.op = "robot" THEN LET r == LinkOf(e.tree, e.root)
       IN Answer(e, Refused(e, r)) \cup (IF e.res = "ok" /\ ~Refused(e, r) THEN Text(e, r) ELSE {})
  ELSE LET tl == e.tl
           kids == KidLinks(e.tree, 0)
           dt == FSub(tl[2], tl[1])
           early == ~Uniform(tl) \/ Len(kids) # 1 \/ e.cons > 0 \/ e.others \/ Len(e.weights) > 1
           refused == early \/ Refused(e, kids[1])
           g == IF e.weights = <<>> THEN Zero ELSE e.weights[1]
       IN Answer(e, refused)
          \cup (IF e.res = "ok" /\ ~refused
                THEN Text(e, kids[1])
                     \cup B("first instant", Near(e.sim.t_start, tl[1], FMul(Tol, Ones(tl))))
                     \cup B("time step", Near(e.sim.dt, dt, FMul(Tol, Ones(tl))))
                     \cup B("last instant", Near(e.sim.t_end, FSub(tl[Len(tl)], FMul(Half, dt)), FMul(Eps(9), Ones(tl))))
                     \cup B("gravity", e.sim.cols = 1 /\ VC(e.sim.g, VScale(g, e.up) \o <<Zero, Zero, Zero>>))
                     \cup B("calls", e.sim.calls)
                ELSE {})
Init == case \in 1..Len(Cases) /\ at = 0
Next == /\ at < Len(Cases[case].ev)
        /\ LET bad == Bad(Cases[case].ev[at+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<case, at+1, bad>>))
        /\ at' = at + 1 /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, at>>
=============================================================================
