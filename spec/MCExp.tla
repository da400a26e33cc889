------------------------------- MODULE MCExp -------------------------------
(* Laws of the exponential on a grid of twists: rigid, one-parameter group, *)
(* generator.                                                               *)
EXTENDS Jets, TLC
Vals == {FInt(-2), FInt(0), FDiv(One, FInt(3)), FInt(4)}
VARIABLES tw, s
Init == tw \in [1..6 -> Vals] /\ s = "new"
Tol == Eps(14)
Next == s = "new" /\ s' = "done" /\ UNCHANGED tw
T == <<tw[1], tw[2], tw[3], tw[4], tw[5], tw[6]>>
Laws == s = "done" =>
  LET E == Exp(T) third == FDiv(One, FInt(3))
  IN /\ IsRigid(E, Tol)
     /\ MNear(MMul(Exp(VScale(third, T)), Exp(VScale(FSub(One, third), T))), E, Tol)
     /\ MNear(MMul(E, Exp(VNeg(T))), I4, Tol)
     /\ VNear(MoveTwist(E, T), T, Eps(13))
     \* rotations about the axes
     /\ (T[2] = Zero /\ T[3] = Zero) => MNear(RotOf(E), RotOf(RotX(T[1])), Tol)
     /\ (T[1] = Zero /\ T[3] = Zero) => MNear(RotOf(E), RotOf(RotY(T[2])), Tol)
     /\ (T[1] = Zero /\ T[2] = Zero) => MNear(RotOf(E), RotOf(RotZ(T[3])), Tol)
=============================================================================
