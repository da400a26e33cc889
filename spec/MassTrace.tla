----------------------------- MODULE MassTrace -----------------------------
(* M04: mass matrices computed by the implementation. *)
EXTENDS Mass, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(10)
\* relative to the matrix, of the solids only (masses may be small)
Close(A, X) == FLe(MMax(MSub(A, X)), FMul(Tol, MMax(X)))
Bad(e) ==
  CASE e.f = "crash" -> {"exception: " \o e.res}
    [] e.f = "solid" ->
         B("mass matrix of the solid", IsMat(e.m, 6, 6) /\
           Close(e.m, CASE e.kind = "box" -> BoxMass(e.a, e.mass)
                        [] e.kind = "ellipsoid" -> EllipsoidMass(e.a, e.mass)
                        [] e.kind = "sphere" -> SphereMass(e.a[1], e.mass)
                        [] e.kind = "cylinder" -> CylinderMass(e.a[1], e.a[2], e.mass)))
    [] e.f = "transport" ->
         B("transport", Close(e.m, Transport(e.from, e.h)))
         \cup B("arguments are kept", e.kept)
    [] e.f = "principal" ->
         (IF ~IsRigid(e.h, Eps(9)) THEN {"principal frame is rigid"}
          ELSE LET N == Transport(e.from, e.h)
               IN B("center of mass", VNear(PosOf(e.h), ComOf(e.from), Eps(9)))
                  \cup B("diagonal", FLe(MMax(OffDiagonal(N)), FMul(Eps(9), MMax(e.from)))))
         \cup B("arguments are kept", e.kept)
    [] e.f = "valid" -> B("validation", e.res = IsMass(e.m)) \cup B("semi validation", e.semi = IsSemiMass(e.m))
    [] e.f = "badshape" -> B("validation of the shape", ~e.res /\ ~e.semi)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
