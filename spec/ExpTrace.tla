------------------------------ MODULE ExpTrace ------------------------------
(***************************************************************************)
(* M03: exponentials computed by the implementation.  An event records the *)
(* exponentials of s*t, u*t and (s+u)*t for a twist t.                     *)
(***************************************************************************)
EXTENDS Geom, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACE).cases
VARIABLES i, l
B(name, ok) == IF ok THEN {} ELSE {name}
Tol == Eps(11)
\* a small error on a small rotation matters as well
Fine(t) == IF FLe(VMax(t), Eps(3)) THEN Eps(14) ELSE Tol
Bad(e) ==
  IF e.f = "crash" THEN {"exception: " \o e.res}
  ELSE B("motion", MNear(e.e, Exp(e.t), Fine(e.t)))
  \cup B("motion for a part of the duration", MNear(e.es, Exp(VScale(e.s, e.t)), Tol))
  \cup B("rigid", IsRigid(e.e, Eps(12)) /\ IsRigid(e.es, Eps(12)) /\ IsRigid(e.eu, Eps(12)))
  \cup B("composition", MNear(MMul(e.es, e.eu), e.esu, Tol))
  \cup B("inverse", MNear(e.en, HInv(e.e), Tol))
  \cup B("argument is kept", e.kept)
Init == i \in 1..Len(Cases) /\ l = 0
Next == /\ l < Len(Cases[i].ev)
        /\ LET bad == Bad(Cases[i].ev[l+1])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<i, l+1, bad>>))
        /\ l' = l + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
