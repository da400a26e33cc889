----------------------------- MODULE RunsTrace -----------------------------
(***************************************************************************)
(* T03: the trajectory is a function of the state of the world at the      *)
(* first instant and of the timeline: all the runs of the same simulation  *)
(* pass through the same states at the same instants.                      *)
(***************************************************************************)
EXTENDS Mat, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
\* q is a sequence of vectors and of matrices (poses), v a sequence of vectors
IsPose(x) == x # <<>> /\ Len(x) = 4 /\ IsMat(x, 4, 4)
Big(v) == LET f[k \in 0..Len(v)] == IF k = 0 THEN One ELSE LET y == IF v[k] = <<>> THEN Zero ELSE VMax(v[k])  p == f[k-1] IN IF FLt(p, y) THEN y ELSE p IN f[Len(v)]
Close(a, b, tol) == IF a = <<>> \/ b = <<>> THEN a = b
                    ELSE FLe(VMax(VSub(a, b)), tol)
CloseQ(a, b, pose, tol) == IF pose THEN FLe(MMax(MSub(a, b)), tol) ELSE Close(a, b, tol)
Same(c, a, b, tol) ==
  LET scale == FMul(tol, FMul(Big(a.v), FInt(2)))
  IN /\ Near(a.t, b.t, Eps(12))
     /\ Len(a.q) = Len(b.q)
     /\ \A k \in 1..Len(a.q) : /\ CloseQ(a.q[k], b.q[k], c.pose[k], scale)
                               /\ Close(a.v[k], b.v[k], scale)
Bad(c, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.kind \o " " \o e.res}
  ELSE B("instants: " \o e.kind, Len(e.st) = Len(c.ref))
       \cup B("states: " \o e.kind, Len(e.st) = Len(c.ref) => \A k \in 1..Len(c.ref) : Same(c, c.ref[k], e.st[k], Eps(7)))
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i], Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
