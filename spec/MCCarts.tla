------------------------------ MODULE MCCarts -------------------------------
(* The scheme: one solution at each step, no energy is created, bounds are
   never crossed once they are seen. *)
EXTENDS Carts, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
VARIABLES x, s, s0, bad, hist
R(a, b) == FDiv(FInt(a), FInt(b))
V(a, b) == <<R(a, 4), R(b, 4)>>
M4(a, b, c, d) == Mat2(R(a, 4), R(b, 4), R(c, 4), R(d, 4))
Gains == {[kp |-> M4(0, 0, 0, 0), kd |-> M4(0, 0, 0, 0)], [kp |-> M4(400, 0, 0, 0), kd |-> M4(4, 0, 0, 0)],
          [kp |-> M4(40, 16, 16, 8), kd |-> M4(0, 0, 0, 0)], [kp |-> M4(4, 0, 0, 4000), kd |-> M4(8, 4, 4, 400)]}
Lims == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}
Init == \E m \in {V(4, 4), V(1, 40)}, g \in Gains, lim \in Lims, prox \in {R(1, 4), R(3, 1)},
           qd \in {V(0, 0), V(4, -8)}, w0 \in {V(0, 0), V(-6, 10)} :
        /\ g.kp = M4(0, 0, 0, 0) => qd = V(0, 0)
        /\ lim = <<FALSE, FALSE>> => prox = R(1, 4)
        /\ x = [m |-> m, kp |-> g.kp, kd |-> g.kd, qd |-> qd, vd |-> V(0, 0), lim |-> lim,
                mn |-> V(-1, -2), mx |-> V(2, 1), prox |-> prox]
        /\ s = [q |-> V(0, 0), w |-> w0, f |-> V(0, 0), on |-> <<FALSE, FALSE>>]
        /\ s0 = s /\ bad = {}
        /\ hist = <<>>
Forces == {V(0, 0), V(-20, 4), V(8, 100)}
Dts == {R(1, 8), R(1, 64)}
B(name, ok) == IF ok THEN {} ELSE {name}
Inside(c, k) == FLe(FSub(x.mn[k], Eps(12)), c.q[k]) /\ FLe(c.q[k], FAdd(x.mx[k], Eps(12)))
Pushes(c, k, tol) == /\ c.on[k] \/ FLe(FAbs(c.f[k]), tol)
                     /\ FLt(tol, c.f[k]) => Near(c.q[k], x.mn[k], Eps(9))
                     /\ FLt(c.f[k], FNeg(tol)) => Near(c.q[k], x.mx[k], Eps(9))
Step(dt, u) ==
  LET S == Solutions(x, s, dt, u)
      Z == Impedance_(x, dt)
      c == Next_(x, s, dt, u)
      \* forces of the springs and dampers, at the end of the step
      pd == VSub(MV(x.kp, VSub(x.qd, c.q)), MV(x.kd, c.w))
      scale == FAdd(One, FMul(MMax(Z), VMax(c.w)))
  IN /\ s' = c
     /\ hist' = Append(hist, [dt |-> dt, u |-> u])
     /\ bad' = B("impedance is definite", PosDef(Z))
           \cup B("there is a solution", S # {})
           \cup B("there is one solution", \A a, b \in S : VNear(a.w, b.w, Eps(9)))
           \cup B("implicit gains", FLe(VMax(VSub(MV(MScale(FDiv(One, dt), Inertia(x.m)), VSub(c.w, s.w)), VAdd(u, VAdd(pd, c.f)))), FMul(Eps(10), scale)))
           \cup B("bounds", \A k \in 1..2 : c.on[k] => Inside(c, k))
           \cup B("forces of the limits", \A k \in 1..2 : Pushes(c, k, FMul(Eps(9), scale)))
           \cup B("no energy is created", u # V(0, 0) \/ (\E k \in 1..2 : c.on[k] /\ ~Inside(s, k))
                                         \/ FLe(Energy(x, c), FAdd(Energy(x, s), FMul(Eps(10), FAdd(One, Energy(x, s))))))
     /\ UNCHANGED <<x, s0>>
Next == /\ Len(hist) < MaxLen
        /\ \E dt \in Dts, u \in Forces : Step(dt, u)
        /\ (IF Len(hist') < MaxLen THEN TRUE ELSE PrintT("B " \o ToJson([x |-> x, s |-> s0, hist |-> hist'])))
Spec == Init /\ [][Next]_<<x, s, s0, bad, hist>>
Theorems == bad = {}
=============================================================================
