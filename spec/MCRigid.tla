------------------------------ MODULE MCRigid ------------------------------
(***************************************************************************)
(* The group generated by quarter turns and unit translations, within a    *)
(* bounded region: an exact and finite part of the group of displacements. *)
(* The laws of adjoint and adjacency matrices are checked on every state,  *)
(* and the words which lead to the states are replayed.                    *)
(***************************************************************************)
EXTENDS Geom, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Reach == FInt(1)
VARIABLES H, word
View == H
Gen(g) == CASE g = "rotx" -> Hom(<<<<One, Zero, Zero>>, <<Zero, Zero, FInt(-1)>>, <<Zero, One, Zero>>>>, Vec0(3))
            [] g = "roty" -> Hom(<<<<Zero, Zero, One>>, <<Zero, One, Zero>>, <<FInt(-1), Zero, Zero>>>>, Vec0(3))
            [] g = "rotz" -> Hom(<<<<Zero, FInt(-1), Zero>>, <<One, Zero, Zero>>, <<Zero, Zero, One>>>>, Vec0(3))
            [] g = "tx" -> Transl(Unit(3, 1)) [] g = "ty" -> Transl(Unit(3, 2)) [] g = "tz" -> Transl(Unit(3, 3))
            [] g = "-tx" -> Transl(VNeg(Unit(3, 1))) [] g = "-ty" -> Transl(VNeg(Unit(3, 2))) [] g = "-tz" -> Transl(VNeg(Unit(3, 3)))
Letters == {"rotx", "roty", "rotz", "tx", "ty", "tz", "-tx", "-ty", "-tz"}
Init == H = I4 /\ word = <<>>
Next == /\ Len(word) < MaxLen
        /\ \E g \in Letters \cup {"inv"} :
             /\ H' = (IF g = "inv" THEN HInv(H) ELSE MMul(H, Gen(g)))
             /\ FLe(VMax(PosOf(H')), Reach)
             /\ word' = Append(word, g)
             /\ PrintT("B " \o ToJson(word'))
Spec == Init /\ [][Next]_<<H, word>>
T1 == <<One, FInt(2), FInt(-1), FInt(3), Zero, FInt(1)>>
T2 == <<FInt(-2), One, FInt(1), Zero, FInt(2), FInt(-3)>>
T3 == <<Zero, One, FInt(4), FInt(1), FInt(-1), FInt(2)>>
Group == /\ IsRigid(H, Zero)
         /\ MMul(H, HInv(H)) = I4 /\ MMul(HInv(H), H) = I4
         /\ \A g \in Letters : /\ HInv(MMul(H, Gen(g))) = MMul(HInv(Gen(g)), HInv(H))
                               /\ MNear(Ad(MMul(H, Gen(g))), MMul(Ad(H), Ad(Gen(g))), Zero)
Adjoint == /\ MNear(MMul(Ad(H), Ad(HInv(H))), Id(6), Zero)
           \* the adjoint matrix moves twists
           /\ MV(Ad(H), T1) = MoveTwist(H, T1)
           \* and preserves brackets
           /\ MV(Ad(H), Bracket(T1, T2)) = Bracket(MV(Ad(H), T1), MV(Ad(H), T2))
           /\ MNear(AdDot(H, MMul(H, HatT(T1))), MMul(Ad(H), Adj(T1)), Zero)
Lie == /\ MV(Adj(T1), T2) = Bracket(T1, T2)
       /\ VAdd(Bracket(T1, Bracket(T2, T3)), VAdd(Bracket(T2, Bracket(T3, T1)), Bracket(T3, Bracket(T1, T2)))) = Vec0(6)
=============================================================================
