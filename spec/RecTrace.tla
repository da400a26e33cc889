------------------------------ MODULE RecTrace ------------------------------
(***************************************************************************)
(* O01, O03: the records are the ones of Records, whose values are those   *)
(* of the world in the states in which the steps were computed (Tree,      *)
(* Shapes).                                                                *)
(***************************************************************************)
EXTENDS Step, Shapes, TLC, Json, IOUtils
R == INSTANCE Records
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l, m
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(9)
ShapeAt(c, JT, s) == c.shapes[s] @@ [h |-> FramePose(JT, c.shapes[s].frame)]

LOCAL Tuple(n, f) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE Append(g[k-1], f[k]) IN g[n]
\* the standard acceleration of gravity
G0 == FNeg(FDiv(FInt(981), FInt(100)))

Good(c, r, x, s, JT, n) ==
  CASE r.t = "gpos" -> x = s.q[r.j]
    [] r.t = "gvel" -> x = s.v[r.j]
    [] r.t = "pose" -> IsMat(x, 4, 4) /\ MNear(x, FramePose(JT, r.frame), Tol)
    [] r.t = "twist" -> IsVec(x, 6) /\ VNear(x, TwistOf(FrameJet(JT, r.frame, n)), Tol)
    [] r.t = "com" -> VNear(x, ComPos(c, JT, r.bodies), Tol)
    [] r.t = "distance" ->
         LET a == c.shapes[r.s[1]].t  b == c.shapes[r.s[2]].t
             j == IF Swapped(a, b) THEN r.s[2] ELSE r.s[1]
             k == IF Swapped(a, b) THEN r.s[1] ELSE r.s[2]
         IN Near(x, Dist(ShapeAt(c, JT, j), ShapeAt(c, JT, k)), Eps(8))
    [] r.t = "force" ->
         LET y == s.con[r.c]
         IN ~y.on \/ ~y.act \/ FLe(VMax(VSub(MV(MT(y.jac), x), y.gf)), FMul(Tol, FAdd(One, FMul(FInt(8), FMul(VMax(x), MMax(y.jac))))))
    [] r.t = "energy" ->
         /\ x[1] = s.t
         /\ Near(x[2], Kinetic(c, JT), Tol)
         /\ Near(x[3], Potential(c, G0, c.up, JT), Tol)
         /\ Near(x[4], FAdd(x[2], x[3]), Tol)
\* total, min, mean and max of the durations d
Summary(d) ==
  LET n == Len(d)
      tot == Sum(LAMBDA k : d[k], n)
      Lo == CHOOSE x \in {d[k] : k \in 1..n} : \A k \in 1..n : FLe(x, d[k])
      Hi == CHOOSE x \in {d[k] : k \in 1..n} : \A k \in 1..n : FLe(d[k], x)
  IN <<tot, Lo, FDiv(tot, FInt(n)), Hi>>
What(r) == IF r.t = "energy" THEN "energies" ELSE "record: " \o r.t

Sim(c, e) ==
  LET n == NDof(c)
      JTs == Tuple(e.n, [k \in 1..e.n |-> BodyJets(c, e.states[k].q, e.states[k].v)])
  IN B("one call per step", Len(e.states) = e.n)
     \cup (IF Len(e.states) # e.n THEN {}
           ELSE UNION {IF c.recorders[j].t = "perf"
                       THEN B("durations", IF e.n = 0 THEN e.rec[j] = <<>> ELSE Len(e.rec[j]) = 1 /\ VNear(e.rec[j][1], Summary(e.spent), Tol))
                       ELSE B("one value per step: " \o c.recorders[j].t, Len(e.rec[j]) = e.n)
                       \cup B(What(c.recorders[j]), \A k \in 1..e.n : k <= Len(e.rec[j]) => Good(c, c.recorders[j], e.rec[j][k], e.states[k], JTs[k], n))
                       : j \in 1..Len(c.recorders)})
After(e) == CASE e.op = "sim" -> R!AfterSim(m, e.rec)
              [] e.op = "keep" -> R!AfterKeep(m)
              [] OTHER -> m
Bad(c, e, k) ==
  IF e.op = "crash" THEN {"exception: " \o e.res}
  ELSE (IF e.op = "sim" THEN Sim(c, e) ELSE {})
       \cup B("the record changed", k.rec # <<>> => e.now = k.rec)
       \cup B("a record which was kept changed", e.kept = k.kept)
Init == i \in 1..Len(Cases) /\ l = 0 /\ m = R!Fresh
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               k == IF e.op = "crash" THEN m ELSE After(e)
               c == IF e.op = "sim" THEN [Cases[i] EXCEPT !.mass = e.bmass] ELSE Cases[i]
               bad == Bad(c, e, k)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
              /\ m' = k
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, m>>
=============================================================================
