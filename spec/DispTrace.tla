----------------------------- MODULE DispTrace -----------------------------
(***************************************************************************)
(* M01, M02: words of displacements computed by the implementation.  The   *)
(* state is the displacement H; each event multiplies it by a displacement *)
(* made by one of the constructors, or inverts it, and records what the    *)
(* functions of arboris/homogeneousmatrix.py and adjointmatrix.py give.    *)
(***************************************************************************)
EXTENDS Geom, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
Prop == IOEnv.PROP
VARIABLES i, l, H
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(9)

Ctor(f, a) ==
  CASE f = "transl" -> Transl(a)
    [] f = "rotx" -> RotX(a[1]) [] f = "roty" -> RotY(a[1]) [] f = "rotz" -> RotZ(a[1])
    [] f = "rotzyx" -> MMul(RotZ(a[1]), MMul(RotY(a[2]), RotX(a[3])))
    [] f = "rotzy" -> MMul(RotZ(a[1]), RotY(a[2]))
    [] f = "rotzx" -> MMul(RotZ(a[1]), RotX(a[2]))
    [] f = "rotyx" -> MMul(RotY(a[1]), RotX(a[2]))

\* the displacement after the event; the frame aligned with a vector is any one
After(m, e) == CASE e.f = "crash" -> m
                 [] e.f = "inv" -> HInv(m)
                 [] e.f = "zaligned" -> MMul(m, e.step)
                 [] OTHER -> MMul(m, Ctor(e.f, e.a))

M01(m, n, e) ==
     (IF e.f = "zaligned"
      THEN B("zaligned", IsRigid(e.step, Tol) /\ PosOf(e.step) = Vec0(3) /\ VNear(Column(RotOf(e.step), 3), e.a, Tol))
      ELSE IF e.f = "inv" THEN {}
      ELSE B("displacement " \o e.f, MNear(e.step, Ctor(e.f, e.a), Tol) /\ e.step[4] = <<Zero, Zero, Zero, One>>))
\cup B("product", MNear(e.h, n, Eps(8)))
\cup B("rigid", IsRigid(e.h, Eps(8)))
\cup B("inverse", MNear(e.inv, HInv(n), Eps(8)))
\cup B("point", VNear(e.pdot, MovePoint(n, e.p), Eps(8)))
\cup B("vector", VNear(e.vdot, MoveVector(n, e.p), Eps(8)))
\cup B("validation", e.valid /\ \A k \in 1..Len(e.rejected) : e.rejected[k])
\cup B("arguments are kept", e.kept)
\cup B("angles", MNear(RotOf(Ctor("rotzyx", e.angles)), RotOf(n), Eps(7)))
M02(m, n, e) ==
     B("adjoint", MNear(e.adj, Ad(n), Eps(8)))
\cup B("adjoint moves twists", VNear(MV(e.adj, e.tw), MoveTwist(n, e.tw), Eps(8)))
\cup B("adjoint of the inverse", MNear(e.iadj, Ad(HInv(n)), Eps(8)))
\cup B("inverse of the adjoint", MNear(e.adjinv, Ad(HInv(n)), Eps(8)))
\cup B("adjacency", VNear(MV(e.ad, e.tw2), Bracket(e.tw, e.tw2), Eps(8)) /\ MNear(e.ad, Adj(e.tw), Eps(8)))
\cup B("derivative of the adjoint", MNear(e.dadj, AdDot(n, MMul(n, HatT(e.tw))), Eps(8)))
Bad(m, n, e) == IF e.f = "crash" THEN {"exception: " \o e.res}
                ELSE IF Prop = "M01" THEN M01(m, n, e) ELSE M02(m, n, e)
Init == i \in 1..Len(Cases) /\ l = 0 /\ H = I4
Next == /\ l < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[l+1]
               n == After(H, e)
               bad == Bad(H, n, e)
           IN /\ H' = n
              /\ IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l, H>>
=============================================================================
