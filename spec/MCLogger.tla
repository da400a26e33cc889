------------------------------ MODULE MCLogger ------------------------------
(* All the namings of a small world, and all the selections. *)
EXTENDS Logger, TLC, Json
VARIABLES L, W, V
Names == {"a", "b", NoName}
Sel == [st : BOOLEAN, tr : BOOLEAN, mo : BOOLEAN, flat : BOOLEAN]
\* the ground, two bodies; the joints lead to the body 2 and to a frame of the body 3
Worlds == {[jn |-> <<j1, j2>>, bn |-> <<g, b2, b3>>, sn |-> <<s1, s2>>, f1 |-> <<<<"b", 2>>, <<"s", 1>>>>, mv |-> mv]
           : j1, j2 \in Names, g \in {"a", NoName}, b2, b3 \in Names, s1, s2 \in Names, mv \in {<<>>, <<2>>, <<1, 2>>}}
Fresh(k) == "#" \o ToString(k)
Give(s, from) == [k \in 1..Len(s) |-> IF s[k] = NoName THEN Fresh(from + k) ELSE s[k]]
Init == /\ L \in Sel /\ W \in Worlds
        /\ V = [W EXCEPT !.jn = Give(@, 10), !.bn = Give(@, 20), !.sn = Give(@, 30)]
        /\ (L.mo \/ PrintT("B " \o ToJson([L |-> L, W |-> W])))
Next == UNCHANGED <<L, W, V>>
Spec == Init /\ [][Next]_<<L, W, V>>
NamedInv == Named(W, V)
\* an accepted selection loses no data: the names are as many as the elements
LossLess == ~Refused(L, W) => /\ (L.tr => Cardinality(Keys(L, V, "transforms")) = Cardinality(Transformed(L, W)))
                              /\ (L.st => Cardinality(Keys(L, V, "gpositions")) = Len(W.jn))
\* nothing is refused without reason
Useful == Refused(L, W) => \E S \in {W.jn, W.bn \o W.sn} : \E a, b \in 1..Len(S) : a # b /\ S[a] = S[b] /\ S[a] # NoName
=============================================================================
