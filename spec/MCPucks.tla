------------------------------- MODULE MCPucks ------------------------------
(* What is computed satisfies the laws of contact and friction, and no other
   force does; the ball never enters the plane and never gains energy. *)
EXTENDS Pucks, Step, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES x, s, s0, bad, hist
vars == <<x, s, s0, bad, hist>>
R(a, b) == FDiv(FInt(a), FInt(b))
W(a, b, c) == <<R(a, 4), R(b, 4), R(c, 4)>>
Weights == {W(0, -40, 0), W(12, -40, 0), W(-20, -40, 36), W(0, 80, 0), W(4, -4, -4)}
Dts == {R(1, 8), R(1, 64)}
Init == \/ \E m \in {One, R(5, 2)}, mu \in {Zero, R(1, 2), Two}, prox \in {R(1, 16), Two}, h \in {0, 1, 8}, v \in {W(0, 0, 0), W(8, -4, 0), W(-3, 2, 9)} :
           /\ x = [kind |-> "puck", m |-> m, mu |-> mu, prox |-> prox, r |-> R(1, 4)]
           /\ s = [p |-> <<Zero, FAdd(R(1, 4), R(h, 16)), Zero>>, v |-> v, f |-> Vec0(3)]
           /\ s0 = s /\ bad = {} /\ hist = <<>>
        \/ \E m \in {One, R(5, 2)}, m2 \in {R(1, 2), FInt(4)}, g \in {W(0, 0, 0), W(1, 0, -2)}, v \in {W(0, 0, 0), W(8, -4, 0)} :
           /\ x = [kind |-> "pair", m |-> m, m2 |-> m2]
           /\ s = [p |-> W(1, 2, 3), v |-> v, p2 |-> VAdd(W(1, 2, 3), g), v2 |-> W(0, 0, 0), f |-> Vec0(3)]
           /\ s0 = s /\ bad = {} /\ hist = <<>>
B(name, ok) == IF ok THEN {} ELSE {name}
Energy(q) == FAdd(FMul(FMul(Half, x.m), Norm2(q.v)), FMul(FInt(10), q.p[2]))    \* under the first weight
\* in the frame of the contact (spin, two tangents, normal): z is y, y is x
C4(v) == <<Zero, v[3], v[1], v[2]>>
Tol == Eps(11)
\* other forces near that one
Others(f, scale) == {VAdd(f, VScale(scale, d)) : d \in {W(1, 0, 0), W(0, 1, 0), W(0, 0, 1), W(0, -1, 0), W(-1, 2, 0), W(1, 1, -3), W(0, -2, 1)}}
Lawful(q, dt, u, f) ==
  LET v0 == Free(x, q, dt, u)  v == VAdd(v0, VScale(FDiv(dt, x.m), f))
  IN Signorini(Gap(x, q), C4(v), C4(v0), C4(f), dt, Tol, Eps(10)) /\ (FLe(VMax(f), Eps(10)) \/ Coulomb(C4(v), C4(f), x.mu, Tol, Eps(10)))
StepPuck(dt, u) ==
  LET c == Puck(x, s, dt, u) IN
  /\ s' = c
  /\ bad' = B("laws", ~c.on \/ Lawful(s, dt, u, c.f))
       \cup B("no other force", ~c.on \/ FLe(FAbs(FAdd(Gap(x, s), FMul(dt, Free(x, s, dt, u)[2]))), FMul(FInt(4), Tol)) \/ \A g \in Others(c.f, FAdd(R(1, 64), VMax(c.f))) : ~Lawful(s, dt, u, g))
       \cup B("stays above", ~c.on \/ FLt(Gap(x, s), Zero) \/ FLe(FNeg(Tol), Gap(x, c)))
       \cup B("no force from far", c.on \/ c.f = Vec0(3))
       \cup B("friction takes energy", FLe(Dot(Flat(c.f), Flat(c.v)), Eps(9)))
       \cup B("no energy is created", u # W(0, -40, 0) \/ FLt(Gap(x, s), Zero) \/ FLe(Energy(c), FAdd(Energy(s), Eps(9))))
StepPair(dt, u) ==
  LET c == Pair(x, s, dt, <<u, W(0, -40, 0)>>) IN
  /\ s' = c
  /\ bad' = B("centers together", VNear(c.p, c.p2, Tol))
       \cup B("momentum", VNear(VAdd(VScale(x.m, VSub(c.v, s.v)), VScale(x.m2, VSub(c.v2, s.v2))), VScale(dt, VAdd(u, W(0, -40, 0))), Tol))
Next == /\ Len(hist) < MaxLen
        /\ \E dt \in Dts, u \in Weights :
             /\ IF x.kind = "puck" THEN StepPuck(dt, u) ELSE StepPair(dt, u)
             /\ hist' = Append(hist, [dt |-> dt, u |-> u])
        /\ UNCHANGED <<x, s0>>
        /\ (IF Len(hist') < MaxLen THEN TRUE ELSE PrintT("B " \o ToJson([x |-> x, s |-> s0, hist |-> hist'])))
Spec == Init /\ [][Next]_vars
Theorems == bad = {}
=============================================================================
