----------------------------- MODULE EquivTrace -----------------------------
(***************************************************************************)
(* P01: the simulations of several descriptions of the same system pass    *)
(* through the same states.  The description which is simulated is the one *)
(* the rewritings of Equiv.tla give.                                       *)
(***************************************************************************)
EXTENDS Equiv, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES case, at
B(name, ok) == IF ok THEN {} ELSE {name}
World(d) == [nb |-> d.nb, links |-> d.links, mass |-> d.mass, visc |-> d.visc, up |-> d.up, q |-> d.q, v |-> d.v]
Max(a, b) == IF FLt(a, b) THEN b ELSE a
Big(v) == LET f[k \in 0..Len(v)] == IF k = 0 THEN One ELSE IF v[k] = <<>> THEN f[k-1] ELSE Max(f[k-1], VMax(v[k])) IN f[Len(v)]
IsPose(x) == Len(x) = 4 /\ IsMat(x, 4, 4)
VClose(a, b, tol) == Len(a) = Len(b) /\ (a # <<>> => FLe(VMax(VSub(a, b)), tol))
MClose(a, b, tol) == FLe(MMax(MSub(a, b)), tol)
SameWorld(x, y) ==
  /\ x.nb = y.nb /\ NL(x) = NL(y)
  /\ \A k \in 1..NL(x) : /\ \A f \in {"parent", "child", "type"} : x.links[k][f] = y.links[k][f]
                         /\ MClose(x.links[k].h0, y.links[k].h0, Eps(9)) /\ MClose(x.links[k].h1, y.links[k].h1, Eps(9))
                         /\ IF x.links[k].type = "FreeJoint" THEN MClose(x.q[k], y.q[k], Eps(9)) ELSE VClose(x.q[k], y.q[k], Eps(9))
                         /\ VClose(x.v[k], y.v[k], Eps(9))
  /\ \A b \in 1..x.nb : MClose(x.mass[b], y.mass[b], Eps(7)) /\ MClose(x.visc[b], y.visc[b], Eps(7))
  /\ VClose(x.up, y.up, Eps(9))
Cells(c0) == UNION {{<<j, m>> : m \in 1..DofOf(c0, j)} : j \in 1..NL(c0)}
\* the instants, the poses, the velocities and the forces. When the steps are
\* tiny, the velocities differ from the ones of the first instant, a0, by the
\* accelerations
Clauses(c0, cor, a0, a, b, eps, tiny) ==
  LET tol == FMul(eps, FMul(FInt(4), Max(Big(a.v), Big(a.w))))
      C == Cells(c0)
      To(f, x) == LET r == cor.k[x[1]][x[2]] IN f[r[1]][r[2]]
      Sg(x) == FInt(cor.k[x[1]][x[2]][3])
      Is(f, x, s, t) == FLe(FAbs(FSub(To(b[f], x), FMul(s, a[f][x[1]][x[2]]))), t)
      Dv(j) == IF a.v[j] = <<>> THEN <<>> ELSE VSub(a.v[j], a0.v[j])
      dv == LET d == EqSeq(NL(c0), Dv)  f[k \in 0..NL(c0)] == IF k = 0 THEN Zero ELSE IF d[k] = <<>> THEN f[k-1] ELSE Max(f[k-1], VMax(d[k])) IN f[NL(c0)]
      vtol == IF tiny THEN FAdd(FMul(Eps(3), dv), FMul(Eps(9), Big(a.v))) ELSE tol
      ftol == FMul(IF tiny THEN Eps(3) ELSE FMul(FInt(100), eps), FMul(Max(One, cor.a), Max(Big(a.gf), Big(a0.gf))))
  IN B("instants", Near(a.t, b.t, Eps(12)))
     \cup B("poses", \A x \in 1..Len(a.h) : LET p == cor.b[x] IN MClose(b.h[p[1]+1], MMul(cor.h, MMul(a.h[x], p[2])), FMul(FInt(4), tol)))
     \cup B("twists", \A x \in 1..Len(a.w) : LET p == cor.b[x] IN VClose(b.w[p[1]+1], MV(Ad(HInv(p[2])), a.w[x]), FMul(FInt(IF tiny THEN 32 ELSE 8), tol)))
     \cup B("positions", \A x \in C : IF c0.links[x[1]].type = "FreeJoint"
                                      THEN MClose(b.q[cor.k[x[1]][x[2]][1]], a.q[x[1]], tol)
                                      ELSE Is("q", x, Sg(x), tol))
     \cup B("velocities", \A x \in C : Is("v", x, Sg(x), vtol))
     \cup B("forces", "gf" \in DOMAIN a => \A x \in C : Is("gf", x, FMul(cor.a, Sg(x)), ftol))
Bad(c, e) ==
  IF e.op = "crash" THEN {"exception: " \o e.kind \o " " \o e.res}
  ELSE LET ref == c.ref[IF e.tiny THEN 2 ELSE 1]
           c0 == World(ref.desc)
           r == Rewritten(c0, Same(c0), e.ops)
           eps == IF c.contact THEN Eps(5) ELSE Eps(7)
           how == ": " \o e.kind \o (IF e.tiny THEN " (tiny steps)" ELSE "")
       IN B("description" \o how, SameWorld(r.c, World(e.desc)))
          \cup B("number of instants" \o how, Len(e.st) = Len(ref.st))
          \cup (IF Len(e.st) = Len(ref.st)
                THEN {x \o how : x \in UNION {Clauses(c0, r.cor, ref.st[1], ref.st[k], e.st[k], eps, e.tiny) : k \in 1..Len(e.st)}}
                ELSE {})
Init == case \in 1..Len(Cases) /\ at = 0
Next == /\ at < Len(Cases[case].ev)
        /\ LET bad == Bad(Cases[case], Cases[case].ev[at+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<case, at+1, bad>>))
        /\ at' = at + 1 /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, at>>
=============================================================================
