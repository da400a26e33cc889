-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* The scene which shows a world (arboris/visu), V01 and V02.              *)
(*                                                                         *)
(* c is a tree (see Tree.tla) with frames: c.frames is a sequence of       *)
(* [body, moving], and each link has f0 and f1, the frames it relates (0   *)
(* for a body itself).  Frames and bodies are designated by codes: 0..nb   *)
(* for the bodies, nb + k for the frame k.  h is the sequence of the poses *)
(* of the frames in their bodies.                                          *)
(*                                                                         *)
(* A scene is a sequence of nodes [of, up, pose, const]: what it shows,    *)
(* the node it is attached to (0 for the root, which is the ground), the   *)
(* pose in it, and whether this pose never changes.                        *)
(***************************************************************************)
EXTENDS Tree

BodyOf(c, x) == IF x <= c.nb THEN x ELSE c.frames[x - c.nb].body
LOCAL HOf(h, f) == IF f = 0 THEN I4 ELSE h[f]
\* the tree with the current poses of its frames
At(c, h) == LET n == Len(c.links)
                f[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(f[k-1], [c.links[k] EXCEPT !.h0 = HOf(h, c.links[k].f0), !.h1 = HOf(h, c.links[k].f1)])
            IN [c EXCEPT !.links = f[n]]
InBody(c, h, x) == IF x <= c.nb THEN I4 ELSE h[x - c.nb]
WorldPose(c, q, h, x) == MMul(BodyPose(At(c, h), q, BodyOf(c, x)), InBody(c, h, x))

\* what is visited, in order: codes of frames and, negative, links
FramesOf(c, b) == LET n == Len(c.frames)
                      f[k \in 0..n] == IF k = 0 THEN <<>> ELSE IF c.frames[k].body = b THEN Append(f[k-1], c.nb + k) ELSE f[k-1]
                  IN f[n]
Visit(c) == LET ord == Order(c)
                f[k \in 0..Len(ord)] == IF k = 0 THEN FramesOf(c, 0) ELSE f[k-1] \o <<-ord[k]>> \o FramesOf(c, c.links[ord[k]].child)
            IN f[Len(ord)]

Drawn(s, x) == x = 0 \/ \E k \in 1..Len(s) : s[k].of = x
NodeOf(s, x) == IF x = 0 THEN 0 ELSE CHOOSE k \in 1..Len(s) : s[k].of = x
Node(x, up, pose, const) == [of |-> x, up |-> up, pose |-> pose, const |-> const]
Code(c, f, b) == IF f = 0 THEN b ELSE c.nb + f

\* one more item
Draw(c, flat, q, h, s, item) ==
  IF item < 0 THEN
    LET L == c.links[-item]  b == L.child  p == Code(c, L.f0, L.parent)  x == Code(c, L.f1, b)
    IN IF flat THEN LET s1 == Append(s, Node(b, 0, WorldPose(c, q, h, b), FALSE))
                    IN IF L.f1 = 0 THEN s1 ELSE Append(s1, Node(x, Len(s1), h[L.f1], TRUE))
       ELSE LET s1 == Append(s, Node(x, NodeOf(s, p), JointPose(L.type, q[-item]), FALSE))
            IN IF L.f1 = 0 THEN s1 ELSE Append(s1, Node(b, Len(s1), HInv(h[L.f1]), TRUE))
  ELSE IF Drawn(s, item) THEN s
  ELSE LET f == c.frames[item - c.nb]
       IN IF flat /\ f.moving THEN Append(s, Node(item, 0, WorldPose(c, q, h, item), FALSE))
          ELSE Append(s, Node(item, NodeOf(s, f.body), h[item - c.nb], ~f.moving))

RECURSIVE Shown(_, _)
\* where a node is shown
Shown(s, k) == IF k = 0 THEN I4 ELSE MMul(Shown(s, s[k].up), s[k].pose)

\* the transforms which animate the scene: sequence of [of, pose]
Transforms(c, flat, q, h) ==
  LET T(k) == LET L == c.links[k]
              IN IF flat THEN [of |-> L.child, pose |-> WorldPose(c, q, h, L.child)]
                 ELSE [of |-> Code(c, L.f1, L.child), pose |-> JointPose(L.type, q[k])]
      n == Len(c.links)  m == Len(c.frames)
      f[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(f[k-1], T(k))
      g[k \in 0..m] == IF k = 0 THEN f[n] ELSE IF ~c.frames[k].moving THEN g[k-1]
                       ELSE Append(g[k-1], [of |-> c.nb + k, pose |-> IF flat THEN WorldPose(c, q, h, c.nb + k) ELSE h[k]])
  IN g[m]
Apply(s, tr) == [k \in 1..Len(s) |-> IF \E j \in 1..Len(tr) : tr[j].of = s[k].of
                                     THEN [s[k] EXCEPT !.pose = tr[CHOOSE j \in 1..Len(tr) : tr[j].of = s[k].of].pose] ELSE s[k]]

\* color of hue x (degrees), saturation and value: distance of the hue to that of each channel
LOCAL Wrap(x) == IF FLe(FInt(360), x) THEN FSub(x, FInt(360)) ELSE IF FLt(x, Zero) THEN FAdd(x, FInt(360)) ELSE x
LOCAL Channel(hue, at, s, v) ==
  LET d == Wrap(FSub(Wrap(hue), FInt(at)))
      e == FMin(d, FSub(FInt(360), d))                              \* in 0..180
      k == FMax(Zero, FMin(One, FSub(Two, FDiv(e, FInt(60)))))      \* 1 up to 60 degrees, 0 from 120
  IN FMul(v, FSub(One, FMul(s, FSub(One, k))))
RGB(hue, s, v) == <<Channel(hue, 0, s, v), Channel(hue, 120, s, v), Channel(hue, 240, s, v)>>

\* does a node show a shape ?
Bounds(p) == <<[j \in 1..3 |-> LET f[k \in 0..Len(p)] == IF k = 0 THEN p[1][j] ELSE FMin(f[k-1], p[k][j]) IN f[Len(p)]],
               [j \in 1..3 |-> LET f[k \in 0..Len(p)] == IF k = 0 THEN p[1][j] ELSE FMax(f[k-1], p[k][j]) IN f[Len(p)]]>>
LOCAL Extent(p, e, tol) == LET b == Bounds(p) IN VNear(b[1], VNeg(e), tol) /\ VNear(b[2], e, tol)
Three(r) == <<r, r, r>>
On(p, F(_)) == \A k \in 1..Len(p) : F(p[k])
ShowsMesh(e, n, t, d) ==
  LET p == n.pts  tol == e.tol
  IN CASE t = "Box" -> n.t = "Box" /\ Extent(p, d, tol)
       [] t = "Sphere" -> n.t = "Ellipsoid" /\ Extent(p, Three(d[1]), tol) /\ LET F(x) == Near(Norm(x), d[1], tol) IN On(p, F)
       [] t = "Ellipsoid" -> n.t = "Ellipsoid" /\ Extent(p, d, tol)
       [] t = "Point" -> n.t = "Ellipsoid" /\ Extent(p, Three(e.pr), tol)
       [] t = "Cylinder" -> n.t = "Cylinder" /\ Extent(p, <<d[2], d[2], FMul(Half, d[1])>>, tol)
                            /\ LET F(x) == Near(Norm(<<x[1], x[2]>>), d[2], tol) \/ FLe(Norm(<<x[1], x[2]>>), d[2]) IN On(p, F)
       [] t = "Plane" -> /\ n.t = "Plane" /\ Len(p) = 4
                         /\ LET u == <<d[1], d[2], d[3]>>
                                o == VScale(d[4], u)
                                h2 == FAdd(Sq(e.plane[1]), Sq(e.plane[2]))
                                F(x) == Near(Dot(x, u), d[4], tol) /\ Near(Norm2(VSub(x, o)), h2, FMul(FInt(4), tol))
                            IN On(p, F)
       [] t = "Line" -> n.t = "Line" /\ Len(p) = 2 /\ \E a \in {1, 2} : VNear(p[a], d[1], tol) /\ VNear(p[3-a], d[2], tol)
=============================================================================
