----------------------------- MODULE CartTrace ------------------------------
(* Steps of carts (or of coaxial wheels) made by the implementation. *)
EXTENDS Carts, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
\* proximities which are decided by rounding
Fragile(x, s) == \E k \in 1..2 : x.lim[k] /\ (FLe(FAbs(FSub(FSub(s.q[k], x.mn[k]), x.prox)), Eps(9)) \/ FLe(FAbs(FSub(FSub(x.mx[k], s.q[k]), x.prox)), Eps(9)))
Bad(c, k) ==
  LET e == c.ev[k]
      x == c.x
      s == IF k = 1 THEN c.s ELSE [q |-> c.ev[k-1].q, w |-> c.ev[k-1].w]
  IN IF e.op = "crash" THEN {"exception: " \o e.res}
     ELSE IF Fragile(x, s) THEN {}
     ELSE LET n == Next_(x, s, e.dt, e.u)
              big == FAdd(One, FAdd(VMax(n.w), VMax(s.w)))
              fbig == FAdd(One, FAdd(VMax(n.f), FMul(MMax(Impedance_(x, e.dt)), big)))
          IN B("velocities", FLe(VMax(VSub(e.w, n.w)), FMul(Eps(7), big)))
             \cup B("positions", FLe(VMax(VSub(e.q, n.q)), FMul(Eps(7), FAdd(big, VMax(n.q)))))
             \cup B("forces of the limits", FLe(VMax(VSub(e.f, n.f)), FMul(Eps(7), fbig)))
             \cup B("limits which are active", \A m \in 1..2 : x.lim[m] => e.on[m] = n.on[m])
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i], l+1)
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
