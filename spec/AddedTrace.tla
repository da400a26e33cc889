------------------------------ MODULE AddedTrace ------------------------------
(***************************************************************************)
(* V03: what was shown by a collada file still is, and so are the shapes   *)
(* which have been added, in the frames to which they have been added.     *)
(* An event has what was shown before and what is shown after: sequences   *)
(* of [frame, pts, color] (points in the frame), and the items added.      *)
(***************************************************************************)
EXTENDS Scene, Added, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
LOCAL Count(s, P(_)) == Cardinality({k \in 1..Len(s) : P(s[k])})
LOCAL Cat(s, F(_)) == LET f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE f[k-1] \o F(s[k]) IN f[Len(s)]
LOCAL Along(F, path) == LET f[k \in 0..Len(path)] == IF k = 0 THEN I4 ELSE MMul(f[k-1], F[path[k]].m) IN f[Len(path)]
LOCAL Ones == <<One, One, One>>
Scaled(H, s) == MMul(H, Diag(s \o <<One>>))
\* leaves which are expected: [frame, t, h (4x4), geo (file, leaf) or dims]
OfFile(c, e, x) ==    \* x: [frame, file, pick, h, scale]
  IF x.frame \notin {e.frames[k] : k \in 1..Len(e.frames)} THEN <<>>
  ELSE LET F == c.files[x.file].nodes
           P == Scaled(x.h, x.scale)
           L(s) == <<[frame |-> x.frame, t |-> "mesh", h |-> MMul(P, Along(F, s.path)), file |-> x.file, leaf |-> s.leaf, dims |-> <<>>]>>
       IN Cat(ShownBy(F, x.pick), L)
\* each frame gets the node which has its name
ByNames(c, e, file) == LET L(n) == OfFile(c, e, [frame |-> n, file |-> file, pick |-> n, h |-> I4, scale |-> Ones]) IN Cat(e.frames, L)
\* the visual shapes of robots
OfRobot(c, e, x) == IF x.t = "Mesh" THEN OfFile(c, e, x)
                    ELSE <<[frame |-> x.frame, t |-> x.t, h |-> x.h, file |-> 0, leaf |-> 0, dims |-> x.dims]>>
Expected(c, e) == LET L(x) == CASE x.kind = "file" -> OfFile(c, e, x) [] x.kind = "names" -> ByNames(c, e, x.file) [] x.kind = "visual" -> OfRobot(c, e, x)
                  IN Cat(e.items, L)
LOCAL MovePt(H, p) == [k \in 1..3 |-> FAdd(FAdd(FMul(H[k][1], p[1]), FMul(H[k][2], p[2])), FAdd(FMul(H[k][3], p[3]), H[k][4]))]
LOCAL SamePts(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VNear(a[k], b[k], tol)
Fits(c, e, w, n) ==     \* the leaf w is shown by n
  /\ n.frame = w.frame
  /\ IF w.t = "mesh" THEN LET g == c.files[w.file].geoms[w.leaf]
                          IN SamePts(n.pts, [k \in 1..Len(g.pts) |-> MovePt(w.h, g.pts[k])], e.tol) /\ (g.color = <<>> => n.color = <<>>) /\ (g.color # <<>> => VNear(n.color, g.color, e.tol))
     ELSE LET Hi == HInv(w.h)
              loc == [k \in 1..Len(n.pts) |-> MovePoint(Hi, n.pts[k])]
          IN ShowsMesh([tol |-> e.tol], [t |-> IF w.t = "Sphere" THEN "Ellipsoid" ELSE w.t, pts |-> loc], w.t, w.dims)
Adds(c, e) ==
  LET exp == Expected(c, e)
      Kept(x) == LET Is(y) == y.frame = x.frame /\ SamePts(y.pts, x.pts, e.tol) /\ y.color = x.color IN Count(e.after, Is) >= Count(e.before, Is)
      IsShown(w) == LET Is(n) == Fits(c, e, w, n)  Eq(v) == v = w IN Count(e.after, Is) >= Count(exp, Eq)
  IN B("as much is shown", Len(e.after) = Len(e.before) + Len(exp))
     \cup B("what was shown is changed", \A k \in 1..Len(e.before) : Kept(e.before[k]))
     \cup B("an added shape", \A k \in 1..Len(exp) : IsShown(exp[k]))
     \cup B("the ids are unique", e.twice = <<>>)
     \cup B("references without target", e.lost = <<>>)
     \cup B("the input file is changed", e.kept)
     \cup B("frames", e.frames = e.framesafter)
Bad(c, e) ==
  CASE e.op = "crash" -> {"exception: " \o e.res}
    [] e.op = "add" -> Adds(c, e)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i], Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
==============================================================================
