----------------------------- MODULE PuckTrace ------------------------------
(* Steps of balls made by the implementation. *)
EXTENDS Pucks, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(7)
\* decided by rounding: seen or not, closing or not, sticking or sliding
Fragile(x, s, dt, u) ==
  LET v0 == Free(x, s, dt, u)  e0 == FAdd(Gap(x, s), FMul(dt, v0[2]))
  IN \/ FLe(FAbs(FSub(FAdd(Gap(x, s), FMul(dt, s.v[2])), x.prox)), Eps(9))
Start(c, k) == IF k = 1 THEN c.s ELSE c.ev[k-1]
Bad(c, k) ==
  LET e == c.ev[k]  x == c.x  s == Start(c, k)
  IN IF e.op = "crash" THEN {"exception: " \o e.res}
     ELSE IF x.kind = "pair"
     THEN LET n == Pair(x, s, e.dt, e.u)
              big == FAdd(One, FAdd(VMax(n.v), FAdd(VMax(n.v2), VMax(n.f))))
              ok(a, b) == FLe(VMax(VSub(a, b)), FMul(Tol, big))
          IN B("velocities", ok(e.v, n.v) /\ ok(e.v2, n.v2))
             \cup B("positions", ok(e.p, n.p) /\ ok(e.p2, n.p2))
             \cup B("forces", ok(e.f, n.f) /\ ok(e.f0, VNeg(n.f)))
             \cup B("always active", e.on)
     ELSE IF Fragile(x, s, e.dt, e.u) THEN {}
     ELSE LET n == Puck(x, s, e.dt, e.u)
              big == FAdd(One, FAdd(VMax(n.v), FAdd(VMax(s.v), VMax(n.f))))
              ok(a, b) == FLe(VMax(VSub(a, b)), FMul(Tol, big))
          IN B("active", e.on = n.on)
             \cup B("velocity when it " \o n.mode, ok(e.v, n.v))
             \cup B("position", ok(e.p, n.p))
             \cup B("force when it " \o n.mode, ok(e.f, n.f))
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i], l+1)
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
