------------------------------ MODULE SceneTrace ------------------------------
(***************************************************************************)
(* V01, V02: what was drawn by the Drawer (with a driver which records),   *)
(* or read back from a Collada file, is the world where it is; it still is *)
(* once animated with the recorded transforms (Scene).                     *)
(*                                                                         *)
(* An event draw has the recorded nodes [k, name, ups, pose, const, t,     *)
(* dims, pts, color]: ups are the nodes to which it was attached.          *)
(***************************************************************************)
EXTENDS Scene, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l, m
B(name, ok) == IF ok THEN {} ELSE {name}
NONE == "<none>"
LOCAL Codes(c) == 1..(c.nb + Len(c.frames))
NameOf(e, x) == e.names[x + 1]
LOCAL Kind(N, s) == {k \in 1..Len(N) : N[k].k = s}
LOCAL Ground(N) == CHOOSE k \in 1..Len(N) : N[k].k = "ground"

\* where the nodes are shown
RECURSIVE AtNode(_, _, _)
AtNode(N, k, fuel) == IF N[k].k = "ground" THEN I4
                      ELSE IF fuel = 0 \/ Len(N[k].ups) # 1 THEN O4
                      ELSE LET up == AtNode(N, N[k].ups[1], fuel - 1)
                           IN IF N[k].k = "transform" THEN MMul(up, N[k].pose) ELSE up
Places(N) == LET f[k \in 0..Len(N)] == IF k = 0 THEN <<>> ELSE Append(f[k-1], AtNode(N, k, Len(N))) IN f[Len(N)]
WorldPoses(c, e) == LET n == c.nb + Len(c.frames)
                        f[k \in 0..n] == IF k = 0 THEN <<I4>> ELSE Append(f[k-1], WorldPose(c, e.q, e.h, k))
                    IN f[n]
RECURSIVE Rooted(_, _, _)
Rooted(N, k, fuel) == \/ N[k].k = "ground"
                      \/ fuel > 0 /\ Len(N[k].ups) = 1 /\ Rooted(N, N[k].ups[1], fuel - 1)

\* colors: those which were given to the object, to its name, or to its body
LOCAL Given(c, x, name) == LET a == {j \in 1..Len(c.cobj) : c.cobj[j].x = x}
                               b == {j \in 1..Len(c.cname) : c.cname[j].name = name}
                           IN IF a # {} THEN c.cobj[CHOOSE j \in a : TRUE].color
                              ELSE IF name # NONE /\ b # {} THEN c.cname[CHOOSE j \in b : TRUE].color ELSE <<>>
White == <<One, One, One>>
InPalette(c, col, tol) == \E k \in 0..(c.nbcol - 1) : VNear(col, RGB(FDiv(FMul(FInt(360), FInt(k)), FInt(c.nbcol)), FDiv(FInt(9), FInt(10)), FDiv(FInt(9), FInt(10))), tol)
\* what is drawn of x (code of a frame, or shape: -s) in the color of the body b
Colors(c, e, seen) ==     \* seen: set of <<x, name, body, color>>
  LET free == {s \in seen : Given(c, s[1], s[2]) = <<>>}
      of(b) == {s[4] : s \in {s \in free : s[3] = b}}
      bs == {s[3] : s \in free}
      auto == {b \in bs : Given(c, b, NameOf(e, b)) = <<>>}
      Col(b) == CHOOSE x \in of(b) : TRUE
      whites == {b \in auto : Col(b) = White}
  IN B("color of an object", \A s \in seen : Given(c, s[1], s[2]) # <<>> => VNear(s[4], Given(c, s[1], s[2]), e.tol))
     \cup B("color of the objects of a body", \A b \in bs : \A x, y \in of(b) : VNear(x, y, e.tol))
     \cup B("color of a body", \A b \in bs \ auto : VNear(Col(b), Given(c, b, NameOf(e, b)), e.tol))
     \cup B("color from the palette", \A b \in auto \ whites : InPalette(c, Col(b), e.tol))
     \cup B("colors of the bodies", \A a, b \in auto \ whites : a # b => ~VNear(Col(a), Col(b), Eps(4)))
     \cup B("the palette is used up", Cardinality(whites) <= IF c.nb + 1 > c.nbcol THEN c.nb + 1 - c.nbcol ELSE 0)

ShowsData(e, n, t, d) ==
  CASE t = "Sphere" -> \/ n.t = "Sphere" /\ n.dims = d
                       \/ n.t = "Ellipsoid" /\ n.dims = Three(d[1])
    [] t = "Point" -> \/ n.t = "Point"
                      \/ n.t = "Sphere" /\ n.dims = <<e.pr>>
                      \/ n.t = "Ellipsoid" /\ n.dims = Three(e.pr)
    [] OTHER -> n.t = t /\ n.dims = d
Shows(e, n, t, d) == IF e.file THEN ShowsMesh(e, n, t, d) ELSE ShowsData(e, n, t, d)
LOCAL NameAs(e, n, s) == n.name = s.name \/ (n.name = NONE /\ s.t \in {"Sphere", "Point"})

LOCAL Heavy(c, b) == b > 0 /\ FLt(Eps(6), MMax(c.mass[b]))
\* the mass matrix described in a file
Described(r) == LET a(k) == FDiv(FMul(r.zyx[k], Pi), FInt(180))
                    H == Hom(RotOf(MMul(RotZ(a(1)), MMul(RotY(a(2)), RotX(a(3))))), r.com)
                IN Transport(Diag(<<r.inertia[1], r.inertia[2], r.inertia[3], r.mass, r.mass, r.mass>>), HInv(H))
\* the rotational inertia at the center of mass, in the axes of the body
AtCom(M) == Block(Transport(M, Transl(ComOf(M))), 1, 3, 1, 3)
LOCAL Solve3(A, b) == LET d == Det3(A)  R == MT(A)
                      IN <<FDiv(Det3(<<b, R[2], R[3]>>), d), FDiv(Det3(<<R[1], b, R[3]>>), d), FDiv(Det3(<<R[1], R[2], b>>), d)>>
\* the ellipsoid which shows a mass
ShowsMass(e, n, M) == LET A == AtCom(M)  com == ComOf(M)
                          F(x) == Near(Norm(Solve3(A, VSub(x, com))), e.factor, Eps(3))
                      IN n.t = "Ellipsoid" /\ IF FLt(Eps(7), Det3(A)) THEN On(n.pts, F) ELSE TRUE

Attached(c, e) ==
  LET N == e.nodes
      G == Kind(N, "ground")
      T == Kind(N, "transform")
  IN B("one ground", Cardinality(G) = 1 /\ \A k \in G : N[k].ups = <<>>)
     \cup B("each node is attached once", \A k \in (1..Len(N)) \ G : Len(N[k].ups) = 1)
     \cup B("everything is attached to the ground", \A k \in 1..Len(N) : Rooted(N, k, Len(N)))
     \cup B("names of the frames", \A k \in T : N[k].name = NONE \/ \E x \in Codes(c) : NameOf(e, x) = N[k].name)
     \cup B("vertical", e.up = c.up)
     \cup B("the scene is finished once", e.finished = 1)
Frames(c, e) ==
  LET N == e.nodes
      P == Places(N)
      W == WorldPoses(c, e)
      T == Kind(N, "transform")
      Of(x) == IF x = 0 THEN Kind(N, "ground") ELSE IF NameOf(e, x) = NONE THEN {k \in T : N[k].name = NONE /\ MNear(P[k], W[x+1], e.tol)} ELSE {k \in T : N[k].name = NameOf(e, x)}
      One1(x) == CHOOSE k \in Of(x) : TRUE
      moving == {tr.of : tr \in LET a == Transforms(c, c.flat, e.q, e.h) IN {a[j] : j \in 1..Len(a)}}
      \* files do not tell which poses are constant
      consts == IF e.file THEN UNION {Of(x) : x \in Codes(c) \ moving} ELSE {k \in T : N[k].const}
      Moved == {k \in consts : FLt(FInt(0), VMax(PosOf(N[k].pose)))}
      lines == Kind(N, "line")
      inertias == Kind(N, "inertia")
      shapes == Kind(N, "shape")
      \* colored things: <<code, name, body, color>>
      lineOf(k) == {x \in Codes(c) : \E j \in Of(x) : j \in consts /\ N[j].ups = N[k].ups /\ ShowsMesh(e, N[k], "Line", <<Vec0(3), PosOf(N[j].pose)>>)}
      inertiaOf(k) == {b \in 1..c.nb : Heavy(c, b) /\ N[k].ups[1] \in Of(b) /\ IF e.file THEN ShowsMass(e, N[k], c.mass[b]) ELSE N[k].dims = c.mass[b] /\ N[k].name = NameOf(e, b)}
      shapeOf(k) == {s \in 1..Len(c.shapes) : LET S == c.shapes[s] IN NameAs(e, N[k], S) /\ Shows(e, N[k], S.t, S.dims) /\ N[k].ups[1] \in Of(S.frame)}
      Pick(S) == CHOOSE x \in S : TRUE
  IN B("every frame is shown", \A x \in Codes(c) : IF NameOf(e, x) = NONE THEN Of(x) # {} ELSE Cardinality(Of(x)) = 1)
     \cup B("a frame is shown elsewhere", \A x \in Codes(c) : \A k \in Of(x) : MNear(P[k], W[x+1], e.tol))
     \cup (IF \E x \in Codes(c) : Cardinality(Of(x)) # 1 THEN {}
           ELSE B("hierarchy", IF c.flat THEN \A b \in 1..c.nb : N[One1(b)].ups = <<Ground(N)>>
                               ELSE \A k \in 1..Len(c.links) : LET L == c.links[k] IN N[One1(Code(c, L.f1, L.child))].ups[1] \in Of(Code(c, L.f0, L.parent))))
     \cup (IF e.arrows THEN B("arrows of the frames", \A k \in T : Cardinality({j \in Kind(N, "arrows") : N[j].ups = <<k>>}) = 1) ELSE {})
     \cup (IF e.lines THEN B("lines", /\ Cardinality(lines) = Cardinality(Moved)
                          /\ \A k \in Moved : \E j \in lines : N[j].ups = N[k].ups /\ ShowsMesh(e, N[j], "Line", <<Vec0(3), PosOf(N[k].pose)>>)) ELSE {})
     \cup (IF e.inertias THEN B("inertias", /\ Cardinality(inertias) = Cardinality({b \in 1..c.nb : Heavy(c, b)})
                             /\ \A b \in 1..c.nb : Heavy(c, b) => \E k \in inertias : b \in inertiaOf(k)) ELSE {})
     \cup B("shapes", /\ Cardinality(shapes) = Len(c.shapes)
                      /\ \A s \in 1..Len(c.shapes) : \E k \in shapes : s \in shapeOf(k)
                      /\ \A k \in shapes : shapeOf(k) # {})
     \cup (IF \E k \in lines : lineOf(k) = {} THEN {} ELSE
           IF \E k \in inertias : inertiaOf(k) = {} THEN {} ELSE
           IF \E k \in shapes : shapeOf(k) = {} THEN {} ELSE
           Colors(c, e, {LET x == Pick(lineOf(k)) IN <<x, NameOf(e, x), BodyOf(c, x), N[k].color>> : k \in {k \in lines : Cardinality(lineOf(k)) = 1}}
                        \cup {LET x == Pick(inertiaOf(k)) IN <<x, NameOf(e, x), x, N[k].color>> : k \in {k \in inertias : Cardinality(inertiaOf(k)) = 1}}
                        \cup {LET s == Pick(shapeOf(k)) IN <<-s, c.shapes[s].name, BodyOf(c, c.shapes[s].frame), N[k].color>> : k \in {k \in shapes : Cardinality(shapeOf(k)) = 1}}))
     \cup (IF e.file THEN LET R == e.rigid IN
                 B("descriptions of the masses", /\ Len(R) = Cardinality({b \in 1..c.nb : Heavy(c, b)})
                          /\ \A b \in 1..c.nb : Heavy(c, b) => \E k \in 1..Len(R) : (NameOf(e, b) # NONE => R[k].name = NameOf(e, b)) /\ MNear(Described(R[k]), c.mass[b], Eps(8)))
           ELSE {})
Draws(c, e) == LET t == Attached(c, e) IN IF t # {} THEN t ELSE Frames(c, e)

\* the last scene, animated
Animate(N, tr) == [k \in 1..Len(N) |-> LET a == {j \in 1..Len(tr) : tr[j].name = N[k].name}
                                       IN IF N[k].k = "transform" /\ N[k].name # NONE /\ a # {} THEN [N[k] EXCEPT !.pose = tr[CHOOSE j \in a : TRUE].pose] ELSE N[k]]
Anim(c, e, N) ==
  LET N2 == Animate(N, e.tr)
      P == Places(N2)
      W == WorldPoses(c, e)
      T == Kind(N, "transform")
      names == {e.tr[j].name : j \in 1..Len(e.tr)}
  IN B("one transform per name", Cardinality(names) = Len(e.tr))
     \cup B("a transform without node", \A n \in names : n = NameOf(e, 0) \/ \E k \in T : N[k].name = n)
     \cup B("the ground moves", \A j \in 1..Len(e.tr) : e.tr[j].name = NameOf(e, 0) => MNear(e.tr[j].pose, I4, e.tol))
     \cup B("a constant transform changes", \A k \in T : N[k].const /\ N[k].name \in names => FALSE)
     \cup B("a frame is shown elsewhere", \A x \in Codes(c) : \A k \in T : N[k].name = NameOf(e, x) /\ N[k].name # NONE => MNear(P[k], W[x+1], e.tol))
     \cup B("instant", Near(e.at, e.t, e.tol))

Bad(c, e) ==
  CASE e.op = "crash" -> {"exception: " \o e.res}
    [] e.op = "draw" -> Draws(c, e)
    [] e.op = "anim" -> IF m = <<>> THEN {} ELSE Anim(c, e, m)
    [] e.op = "hsv" -> B("red, green, blue", VNear(e.rgb, RGB(e.hsv[1], e.hsv[2], e.hsv[3]), Eps(9)))
    [] e.op = "item" -> B("what is drawn: " \o e.t, ShowsMesh(e, e.node, e.t, e.dims)) \cup B("its color", VNear(e.node.color, e.color, e.tol)) \cup B("its name", e.node.name \in {e.name, NONE})
    [] e.op = "same" -> B(e.what, e.a = e.b)
Init == i \in 1..Len(Cases) /\ l = 0 /\ m = <<>>
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               bad == Bad(Cases[i], e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
              /\ m' = IF e.op = "draw" THEN IF bad = {} THEN e.nodes ELSE <<>> ELSE m
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, m>>
=============================================================================
